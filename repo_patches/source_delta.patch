From 1ad27348e2449983db60570a0d419a76b584c24f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:57 +0000
Subject: [PATCH 01/23] fix: reject negative frame_offset in wavread instead of
 returning header bytes as audio

---
 ssspy/io/__init__.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/ssspy/io/__init__.py b/ssspy/io/__init__.py
index e8d3de8..23f2a95 100644
--- a/ssspy/io/__init__.py
+++ b/ssspy/io/__init__.py
@@ -158,6 +158,11 @@ def _read_data_chunk(
     bytes_per_sample = block_align // n_channels
     n_full_samples = data_chunk_size // bytes_per_sample
 
+    if frame_offset < 0:
+        raise ValueError(
+            f"Invalid frame_offset={frame_offset} is given. Set nonnegative integer."
+        )
+
     start = f.tell() + block_align * frame_offset
     max_frame = data_chunk_size // block_align
 
-- 
2.43.0


From eafd0032d22c9e74ef89e0836a4d9acf6c998e59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:50 +0000
Subject: [PATCH 02/23] fix: do not leave partial archive in dataset cache when
 download is interrupted

---
 ssspy/utils/dataset/_cache.py    | 18 ++++++++++++++++++
 ssspy/utils/dataset/mird.py      |  5 ++++-
 ssspy/utils/dataset/sisec2010.py |  4 +++-
 3 files changed, 25 insertions(+), 2 deletions(-)
 create mode 100644 ssspy/utils/dataset/_cache.py

diff --git a/ssspy/utils/dataset/_cache.py b/ssspy/utils/dataset/_cache.py
new file mode 100644
index 0000000..c39010d
--- /dev/null
+++ b/ssspy/utils/dataset/_cache.py
@@ -0,0 +1,18 @@
+import os
+import tempfile
+from contextlib import contextmanager
+from typing import Iterator
+
+
+@contextmanager
+def atomic_path(path: str) -> Iterator[str]:
+    """Yield temporary path, which is moved to ``path`` only if block is successfully finished.
+
+    Interrupted block never leaves incomplete file in ``path``.
+    """
+    root, filename = os.path.split(path)
+
+    with tempfile.TemporaryDirectory(dir=root) as temp_root:
+        temp_path = os.path.join(temp_root, filename)
+        yield temp_path
+        os.replace(temp_path, path)
diff --git a/ssspy/utils/dataset/mird.py b/ssspy/utils/dataset/mird.py
index c6cd52e..e1bfacd 100644
--- a/ssspy/utils/dataset/mird.py
+++ b/ssspy/utils/dataset/mird.py
@@ -4,6 +4,8 @@ import urllib.request
 
 import numpy as np
 
+from ._cache import atomic_path
+
 reverb_durations = [0.16, 0.36, 0.61]
 
 
@@ -43,7 +45,8 @@ def download(root: str = ".data/MIRD", n_sources: int = 3, reverb_duration: floa
     os.makedirs(root, exist_ok=True)
 
     if not os.path.exists(zip_path):
-        urllib.request.urlretrieve(url, zip_path)
+        with atomic_path(zip_path) as temp_zip_path:
+            urllib.request.urlretrieve(url, temp_zip_path)
 
     rir_path = os.path.join(root, template_rir_name.format(reverb_duration, 0))
 
diff --git a/ssspy/utils/dataset/sisec2010.py b/ssspy/utils/dataset/sisec2010.py
index 44af6e8..20b5083 100644
--- a/ssspy/utils/dataset/sisec2010.py
+++ b/ssspy/utils/dataset/sisec2010.py
@@ -5,6 +5,7 @@ import urllib.request
 import numpy as np
 
 from ...io import wavread
+from ._cache import atomic_path
 
 
 def download(root: str = ".data/SiSEC2010", n_sources: int = 3, tag: str = "dev1_female3") -> str:
@@ -15,7 +16,8 @@ def download(root: str = ".data/SiSEC2010", n_sources: int = 3, tag: str = "dev1
     os.makedirs(root, exist_ok=True)
 
     if not os.path.exists(zip_path):
-        urllib.request.urlretrieve(url, zip_path)
+        with atomic_path(zip_path) as temp_zip_path:
+            urllib.request.urlretrieve(url, temp_zip_path)
 
     if not os.path.exists(os.path.join(root, "{}_inst_matrix.mat".format(tag))):
         shutil.unpack_archive(zip_path, root)
-- 
2.43.0


From 1fff9e811fb355dcc1dc2eeacd38b4f2f4b92c76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:01 +0000
Subject: [PATCH 03/23] fix: unpack dataset archive again when previous
 unpacking was interrupted

---
 ssspy/utils/dataset/_cache.py    | 17 +++++++++++++++++
 ssspy/utils/dataset/mird.py      | 14 +++++++-------
 ssspy/utils/dataset/sisec2010.py |  9 ++++-----
 3 files changed, 28 insertions(+), 12 deletions(-)

diff --git a/ssspy/utils/dataset/_cache.py b/ssspy/utils/dataset/_cache.py
index c39010d..bf74d86 100644
--- a/ssspy/utils/dataset/_cache.py
+++ b/ssspy/utils/dataset/_cache.py
@@ -1,4 +1,5 @@
 import os
+import shutil
 import tempfile
 from contextlib import contextmanager
 from typing import Iterator
@@ -16,3 +17,19 @@ def atomic_path(path: str) -> Iterator[str]:
         temp_path = os.path.join(temp_root, filename)
         yield temp_path
         os.replace(temp_path, path)
+
+
+def unpack_archive(path: str, root: str) -> None:
+    """Unpack archive to ``root``.
+
+    Each file appears in ``root`` only after the whole archive is successfully unpacked.
+    """
+    with tempfile.TemporaryDirectory(dir=root) as temp_root:
+        shutil.unpack_archive(path, temp_root)
+
+        for temp_dir, _, filenames in os.walk(temp_root):
+            target_dir = os.path.join(root, os.path.relpath(temp_dir, temp_root))
+            os.makedirs(target_dir, exist_ok=True)
+
+            for filename in filenames:
+                os.replace(os.path.join(temp_dir, filename), os.path.join(target_dir, filename))
diff --git a/ssspy/utils/dataset/mird.py b/ssspy/utils/dataset/mird.py
index e1bfacd..ed21d4f 100644
--- a/ssspy/utils/dataset/mird.py
+++ b/ssspy/utils/dataset/mird.py
@@ -1,10 +1,9 @@
 import os
-import shutil
 import urllib.request
 
 import numpy as np
 
-from ._cache import atomic_path
+from ._cache import atomic_path, unpack_archive
 
 reverb_durations = [0.16, 0.36, 0.61]
 
@@ -48,10 +47,12 @@ def download(root: str = ".data/MIRD", n_sources: int = 3, reverb_duration: floa
         with atomic_path(zip_path) as temp_zip_path:
             urllib.request.urlretrieve(url, temp_zip_path)
 
-    rir_path = os.path.join(root, template_rir_name.format(reverb_duration, 0))
+    rir_paths = [
+        os.path.join(root, template_rir_name.format(duration, degree)) for degree in degrees
+    ]
 
-    if not os.path.exists(rir_path):
-        shutil.unpack_archive(zip_path, root)
+    if not all(os.path.exists(rir_path) for rir_path in rir_paths):
+        unpack_archive(zip_path, root)
 
     npz_path = os.path.join(root, "MIRD-{}ch.npz".format(n_channels))
 
@@ -60,8 +61,7 @@ def download(root: str = ".data/MIRD", n_sources: int = 3, reverb_duration: floa
     if not os.path.exists(npz_path):
         rirs = {}
 
-        for src_idx, degree in enumerate(degrees):
-            rir_path = os.path.join(root, template_rir_name.format(duration, degree))
+        for src_idx, rir_path in enumerate(rir_paths):
             rir = resample_mird_rir(rir_path, sample_rate_out=sample_rate)
             rirs["src_{}".format(src_idx + 1)] = rir[channels, :n_samples]
 
diff --git a/ssspy/utils/dataset/sisec2010.py b/ssspy/utils/dataset/sisec2010.py
index 20b5083..4aaad01 100644
--- a/ssspy/utils/dataset/sisec2010.py
+++ b/ssspy/utils/dataset/sisec2010.py
@@ -1,11 +1,10 @@
 import os
-import shutil
 import urllib.request
 
 import numpy as np
 
 from ...io import wavread
-from ._cache import atomic_path
+from ._cache import atomic_path, unpack_archive
 
 
 def download(root: str = ".data/SiSEC2010", n_sources: int = 3, tag: str = "dev1_female3") -> str:
@@ -19,9 +18,6 @@ def download(root: str = ".data/SiSEC2010", n_sources: int = 3, tag: str = "dev1
         with atomic_path(zip_path) as temp_zip_path:
             urllib.request.urlretrieve(url, temp_zip_path)
 
-    if not os.path.exists(os.path.join(root, "{}_inst_matrix.mat".format(tag))):
-        shutil.unpack_archive(zip_path, root)
-
     source_paths = []
 
     for src_idx in range(n_sources):
@@ -39,6 +35,9 @@ def download(root: str = ".data/SiSEC2010", n_sources: int = 3, tag: str = "dev1
 
     assert n_channels == n_sources, "Mixing system should be determined."
 
+    if not all(os.path.exists(source_path) for source_path in source_paths):
+        unpack_archive(zip_path, root)
+
     if not os.path.exists(npz_path):
         dry_sources = {}
 
-- 
2.43.0


From 3f4367b42909a43b9b83428bdb51f3f642c55728 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:32 +0000
Subject: [PATCH 04/23] fix: do not reuse cached sources and RIRs of other tag
 and reverberation

---
 ssspy/utils/dataset/mird.py      | 2 +-
 ssspy/utils/dataset/sisec2010.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/ssspy/utils/dataset/mird.py b/ssspy/utils/dataset/mird.py
index ed21d4f..9353e6f 100644
--- a/ssspy/utils/dataset/mird.py
+++ b/ssspy/utils/dataset/mird.py
@@ -54,7 +54,7 @@ def download(root: str = ".data/MIRD", n_sources: int = 3, reverb_duration: floa
     if not all(os.path.exists(rir_path) for rir_path in rir_paths):
         unpack_archive(zip_path, root)
 
-    npz_path = os.path.join(root, "MIRD-{}ch.npz".format(n_channels))
+    npz_path = os.path.join(root, "MIRD-{:.3f}s-{}ch.npz".format(reverb_duration, n_channels))
 
     assert n_channels == n_sources, "Mixing system should be determined."
 
diff --git a/ssspy/utils/dataset/sisec2010.py b/ssspy/utils/dataset/sisec2010.py
index 4aaad01..1ff6608 100644
--- a/ssspy/utils/dataset/sisec2010.py
+++ b/ssspy/utils/dataset/sisec2010.py
@@ -31,7 +31,7 @@ def download(root: str = ".data/SiSEC2010", n_sources: int = 3, tag: str = "dev1
     channels = channels[:n_sources]
 
     n_channels = len(channels)
-    npz_path = os.path.join(root, "SiSEC2010-{}ch.npz".format(n_channels))
+    npz_path = os.path.join(root, "SiSEC2010-{}-{}ch.npz".format(tag, n_channels))
 
     assert n_channels == n_sources, "Mixing system should be determined."
 
-- 
2.43.0


From 8d259fac18887beffae35bc7ceb05f8d192acc86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:45 +0000
Subject: [PATCH 05/23] fix: do not leave partial npz in dataset cache when
 conversion is interrupted

---
 ssspy/utils/dataset/mird.py      | 11 ++++++++---
 ssspy/utils/dataset/sisec2010.py | 15 ++++++++-------
 2 files changed, 16 insertions(+), 10 deletions(-)

diff --git a/ssspy/utils/dataset/mird.py b/ssspy/utils/dataset/mird.py
index 9353e6f..c829f0b 100644
--- a/ssspy/utils/dataset/mird.py
+++ b/ssspy/utils/dataset/mird.py
@@ -65,9 +65,14 @@ def download(root: str = ".data/MIRD", n_sources: int = 3, reverb_duration: floa
             rir = resample_mird_rir(rir_path, sample_rate_out=sample_rate)
             rirs["src_{}".format(src_idx + 1)] = rir[channels, :n_samples]
 
-        np.savez(
-            npz_path, sample_rate=sample_rate, n_sources=n_sources, n_channels=n_channels, **rirs
-        )
+        with atomic_path(npz_path) as temp_npz_path:
+            np.savez(
+                temp_npz_path,
+                sample_rate=sample_rate,
+                n_sources=n_sources,
+                n_channels=n_channels,
+                **rirs,
+            )
 
     return npz_path
 
diff --git a/ssspy/utils/dataset/sisec2010.py b/ssspy/utils/dataset/sisec2010.py
index 1ff6608..31872c6 100644
--- a/ssspy/utils/dataset/sisec2010.py
+++ b/ssspy/utils/dataset/sisec2010.py
@@ -45,12 +45,13 @@ def download(root: str = ".data/SiSEC2010", n_sources: int = 3, tag: str = "dev1
             data, _ = wavread(source_path, return_2d=False)
             dry_sources["src_{}".format(src_idx + 1)] = data
 
-        np.savez(
-            npz_path,
-            sample_rate=sample_rate,
-            n_sources=n_sources,
-            n_channels=n_channels,
-            **dry_sources,
-        )
+        with atomic_path(npz_path) as temp_npz_path:
+            np.savez(
+                temp_npz_path,
+                sample_rate=sample_rate,
+                n_sources=n_sources,
+                n_channels=n_channels,
+                **dry_sources,
+            )
 
     return npz_path
-- 
2.43.0


From 2cccbd1ac610d47a2d4137db66f4b320c5fdca04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:17 +0000
Subject: [PATCH 06/23] fix: accept initial_call in IPSDTA

---
 ssspy/bss/ipsdta.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/ssspy/bss/ipsdta.py b/ssspy/bss/ipsdta.py
index cdfcdf1..ff997ec 100644
--- a/ssspy/bss/ipsdta.py
+++ b/ssspy/bss/ipsdta.py
@@ -93,7 +93,13 @@ class IPSDTABase(IterativeMethodBase):
 
         self.rng = rng
 
-    def __call__(self, input: np.ndarray, n_iter: int = 100, **kwargs) -> np.ndarray:
+    def __call__(
+        self,
+        input: np.ndarray,
+        n_iter: int = 100,
+        initial_call: bool = True,
+        **kwargs,
+    ) -> np.ndarray:
         r"""Separate a frequency-domain multichannel signal.
 
         Args:
@@ -103,6 +109,9 @@ class IPSDTABase(IterativeMethodBase):
             n_iter (int):
                 The number of iterations of demixing filter updates.
                 Default: ``100``.
+            initial_call (bool):
+                If ``True``, perform callbacks (and computation of loss if necessary)
+                before iterations.
 
         Returns:
             numpy.ndarray of the separated signal in frequency-domain.
@@ -112,7 +121,7 @@ class IPSDTABase(IterativeMethodBase):
 
         self._reset(**kwargs)
 
-        super().__call__(n_iter=n_iter)
+        super().__call__(n_iter=n_iter, initial_call=initial_call)
 
         if self.scale_restoration:
             self.restore_scale()
-- 
2.43.0


From 41db63e1fb05cdded3dfebc7dbd87027fad3a8bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:17 +0000
Subject: [PATCH 07/23] fix: resume ISS- and IPA-based AuxIVA and ILRMA from
 previous call

---
 ssspy/bss/ilrma.py | 21 +++++++++++++++++++++
 ssspy/bss/iva.py   | 17 +++++++++++++++++
 2 files changed, 38 insertions(+)

diff --git a/ssspy/bss/ilrma.py b/ssspy/bss/ilrma.py
index 13eb5e3..6f656d5 100644
--- a/ssspy/bss/ilrma.py
+++ b/ssspy/bss/ilrma.py
@@ -269,6 +269,21 @@ class ILRMABase(IterativeMethodBase):
 
             self.basis, self.activation = T, V
 
+    def _recover_demix_filter(self) -> None:
+        r"""Recover demixing filter from input and output of previous call.
+
+        Some spatial algorithms, e.g. ISS and IPA, update ``output`` directly
+        and set ``demix_filter`` to ``None``. To start the next call from the result of
+        the previous one, ``demix_filter`` satisfying ``output = demix_filter @ input``
+        is computed in advance.
+        """
+        if self.input is None or getattr(self, "demix_filter", self.input) is not None:
+            return
+
+        X, Y = self.input, self.output
+        X, Y = X.transpose(1, 0, 2), Y.transpose(1, 0, 2)
+        self.demix_filter = Y @ np.linalg.pinv(X)
+
     def separate(self, input: np.ndarray, demix_filter: np.ndarray) -> np.ndarray:
         r"""Separate ``input`` using ``demixing_filter``.
 
@@ -837,6 +852,8 @@ class GaussILRMA(ILRMABase):
             numpy.ndarray of the separated signal in frequency-domain.
             The shape is (n_channels, n_bins, n_frames).
         """
+        self._recover_demix_filter()
+
         self.input = input.copy()
 
         self._reset(flooring_fn=self.flooring_fn, **kwargs)
@@ -2216,6 +2233,8 @@ class TILRMA(ILRMABase):
             numpy.ndarray of the separated signal in frequency-domain.
             The shape is (n_channels, n_bins, n_frames).
         """
+        self._recover_demix_filter()
+
         self.input = input.copy()
 
         self._reset(flooring_fn=self.flooring_fn, **kwargs)
@@ -3559,6 +3578,8 @@ class GGDILRMA(ILRMABase):
             numpy.ndarray of the separated signal in frequency-domain.
             The shape is (n_channels, n_bins, n_frames).
         """
+        self._recover_demix_filter()
+
         self.input = input.copy()
 
         self._reset(flooring_fn=self.flooring_fn, **kwargs)
diff --git a/ssspy/bss/iva.py b/ssspy/bss/iva.py
index 35e12e2..6921a93 100644
--- a/ssspy/bss/iva.py
+++ b/ssspy/bss/iva.py
@@ -168,6 +168,21 @@ class IVABase(IterativeMethodBase):
         self.demix_filter = W
         self.output = self.separate(X, demix_filter=W)
 
+    def _recover_demix_filter(self) -> None:
+        r"""Recover demixing filter from input and output of previous call.
+
+        Some spatial algorithms, e.g. ISS and IPA, update ``output`` directly
+        and set ``demix_filter`` to ``None``. To start the next call from the result of
+        the previous one, ``demix_filter`` satisfying ``output = demix_filter @ input``
+        is computed in advance.
+        """
+        if self.input is None or getattr(self, "demix_filter", self.input) is not None:
+            return
+
+        X, Y = self.input, self.output
+        X, Y = X.transpose(1, 0, 2), Y.transpose(1, 0, 2)
+        self.demix_filter = Y @ np.linalg.pinv(X)
+
     def separate(self, input: np.ndarray, demix_filter: np.ndarray) -> np.ndarray:
         r"""Separate ``input`` using ``demixing_filter``.
 
@@ -1654,6 +1669,8 @@ class AuxIVA(AuxIVABase):
             numpy.ndarray of the separated signal in frequency-domain.
             The shape is (n_channels, n_bins, n_frames).
         """
+        self._recover_demix_filter()
+
         self.input = input.copy()
 
         self._reset(**kwargs)
-- 
2.43.0


From e7cb927bc59650373293c0102d702cd283bac005 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:36 +0000
Subject: [PATCH 08/23] fix: solve least squares of demixing filter for rows in
 ADMM

---
 ssspy/bss/admmbss.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/ssspy/bss/admmbss.py b/ssspy/bss/admmbss.py
index 70f0786..85ba769 100644
--- a/ssspy/bss/admmbss.py
+++ b/ssspy/bss/admmbss.py
@@ -233,7 +233,8 @@ class ADMMBSS(ADMMBSSBase):
         VY_tilde = np.sum(V_tilde - Y_tilde, axis=0)
         XVY_tilde = X.transpose(1, 0, 2).conj() @ VY_tilde.transpose(1, 2, 0)
 
-        W = solve(n_penalties * XX + E, VY + XVY_tilde.transpose(0, 2, 1))
+        W = solve(n_penalties * XX + E, VY.transpose(0, 2, 1) + XVY_tilde)
+        W = W.transpose(0, 2, 1)
         XW = self.separate(X, demix_filter=W)
 
         U = alpha * W + (1 - alpha) * V
@@ -427,7 +428,8 @@ class MaskingADMMBSS(ADMMBSSBase):
         VY_tilde = V_tilde - Y_tilde
         XVY_tilde = X.transpose(1, 0, 2).conj() @ VY_tilde.transpose(1, 2, 0)
 
-        W = solve(XX + E, VY + XVY_tilde.transpose(0, 2, 1))
+        W = solve(XX + E, VY.transpose(0, 2, 1) + XVY_tilde)
+        W = W.transpose(0, 2, 1)
         XW = self.separate(X, demix_filter=W)
 
         U = alpha * W + (1 - alpha) * V
-- 
2.43.0


From cef0e52f5e0d29792ec5e5d8ddfb15806b339355 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:37:57 +0000
Subject: [PATCH 09/23] fix: normalize LQPQM without scaling its linear term

---
 ssspy/linalg/lqpqm.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/ssspy/linalg/lqpqm.py b/ssspy/linalg/lqpqm.py
index e5cce69..ca362e4 100644
--- a/ssspy/linalg/lqpqm.py
+++ b/ssspy/linalg/lqpqm.py
@@ -176,8 +176,6 @@ def solve_equation(
     if normalization:
         phi_max_original = phi_max
         phi = phi / phi_max[:, np.newaxis]
-        v = v / phi_max[:, np.newaxis]
-        v_max = v_max / phi_max
         z = z / phi_max
         phi_max = phi_max / phi_max  # i.e. phi_max = 1
     else:
-- 
2.43.0


From 9d8a85809c254fc2f20583848534d35dada67f9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:46:41 +0000
Subject: [PATCH 10/23] fix: record loss of proximal methods when penalty_fn is
 given

---
 ssspy/bss/admmbss.py | 12 +++++++-----
 ssspy/bss/pdsbss.py  | 12 +++++++-----
 ssspy/bss/proxbss.py | 10 +++++-----
 3 files changed, 19 insertions(+), 15 deletions(-)

diff --git a/ssspy/bss/admmbss.py b/ssspy/bss/admmbss.py
index 85ba769..bb64a2f 100644
--- a/ssspy/bss/admmbss.py
+++ b/ssspy/bss/admmbss.py
@@ -295,11 +295,6 @@ class MaskingADMMBSS(ADMMBSSBase):
         record_loss: Optional[bool] = None,
         reference_id: int = 0,
     ) -> None:
-        super(ProxBSSBase, self).__init__(
-            callbacks=callbacks,
-            record_loss=record_loss,
-        )
-
         if penalty_fn is None:
             # Since penalty_fn is not necessarily written in closed form,
             # None is acceptable.
@@ -310,9 +305,16 @@ class MaskingADMMBSS(ADMMBSSBase):
         else:
             assert callable(penalty_fn), "penalty_fn should be callable."
 
+            penalty_fn = [penalty_fn]
+
             if record_loss is None:
                 record_loss = True
 
+        super(ProxBSSBase, self).__init__(
+            callbacks=callbacks,
+            record_loss=record_loss,
+        )
+
         if mask_fn is None:
             raise ValueError("Specify masking function.")
         else:
diff --git a/ssspy/bss/pdsbss.py b/ssspy/bss/pdsbss.py
index eb89dc4..c179443 100644
--- a/ssspy/bss/pdsbss.py
+++ b/ssspy/bss/pdsbss.py
@@ -272,11 +272,6 @@ class MaskingPDSBSS(PDSBSSBase):
         record_loss: Optional[bool] = None,
         reference_id: int = 0,
     ) -> None:
-        super(ProxBSSBase, self).__init__(
-            callbacks=callbacks,
-            record_loss=record_loss,
-        )
-
         if penalty_fn is None:
             # Since penalty_fn is not necessarily written in closed form,
             # None is acceptable.
@@ -287,9 +282,16 @@ class MaskingPDSBSS(PDSBSSBase):
         else:
             assert callable(penalty_fn), "penalty_fn should be callable."
 
+            penalty_fn = [penalty_fn]
+
             if record_loss is None:
                 record_loss = True
 
+        super(ProxBSSBase, self).__init__(
+            callbacks=callbacks,
+            record_loss=record_loss,
+        )
+
         if mask_fn is None:
             raise ValueError("Specify masking function.")
         else:
diff --git a/ssspy/bss/proxbss.py b/ssspy/bss/proxbss.py
index 1ebe7b4..64de0df 100644
--- a/ssspy/bss/proxbss.py
+++ b/ssspy/bss/proxbss.py
@@ -50,11 +50,6 @@ class ProxBSSBase(IterativeMethodBase):
         record_loss: Optional[bool] = None,
         reference_id: int = 0,
     ) -> None:
-        super().__init__(
-            callbacks=callbacks,
-            record_loss=record_loss,
-        )
-
         if penalty_fn is None:
             # Since penalty_fn is not necessarily written in closed form,
             # None is acceptable.
@@ -69,6 +64,11 @@ class ProxBSSBase(IterativeMethodBase):
             if record_loss is None:
                 record_loss = True
 
+        super().__init__(
+            callbacks=callbacks,
+            record_loss=record_loss,
+        )
+
         if prox_penalty is None:
             raise ValueError("Specify proximal operator of penalty function.")
         else:
-- 
2.43.0


From a9d0a839452decdf78093c6ae85f0a409437fc12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:53:32 +0000
Subject: [PATCH 11/23] fix: apply minimal distortion principle to whitened
 input in FastIVA

---
 ssspy/bss/iva.py | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/ssspy/bss/iva.py b/ssspy/bss/iva.py
index 6921a93..3215fb8 100644
--- a/ssspy/bss/iva.py
+++ b/ssspy/bss/iva.py
@@ -564,6 +564,25 @@ class FastIVABase(IVABase):
 
         self.output, self.demix_filter = Y_scaled, W_scaled
 
+    def apply_minimal_distortion_principle(self) -> None:
+        r"""Apply minimal distortion principle to estimated spectrograms."""
+        assert self.scale_restoration, "Set self.scale_restoration=True."
+
+        reference_id = self.reference_id
+
+        X, Z = self.input, self.whitened_input
+        W = self.demix_filter
+
+        Y = self.separate(Z, demix_filter=W, use_whitening=False)
+        Y_scaled = minimal_distortion_principle(Y, reference=X, reference_id=reference_id)
+
+        Z = Z.transpose(1, 0, 2)
+        Z_Hermite = Z.transpose(0, 2, 1).conj()
+        ZZ_Hermite = Z @ Z_Hermite
+        W_scaled = Y_scaled.transpose(1, 0, 2) @ Z_Hermite @ np.linalg.inv(ZZ_Hermite)
+
+        self.output, self.demix_filter = Y_scaled, W_scaled
+
 
 class AuxIVABase(IVABase):
     r"""Base class of auxiliary-function-based independent vector analysis (IVA).
-- 
2.43.0


From 5460b1fea633ab708112c6e12c14fdf10d4c2f83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:57:27 +0000
Subject: [PATCH 12/23] fix: overwrite sequence in
 score_based_permutation_solver when overwrite=True

---
 ssspy/algorithm/permutation_alignment.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ssspy/algorithm/permutation_alignment.py b/ssspy/algorithm/permutation_alignment.py
index 5ed2eee..a7ca41b 100644
--- a/ssspy/algorithm/permutation_alignment.py
+++ b/ssspy/algorithm/permutation_alignment.py
@@ -213,7 +213,7 @@ def score_based_permutation_solver(
         perm_max = np.argmax(scores, axis=1)
         perm_max = permutations[perm_max]
         sequence_normalized = _parallel_sort(sequence_normalized, perm_max)
-        sequence = _parallel_sort(sequence, perm_max)
+        sequence[:] = _parallel_sort(sequence, perm_max)
 
         for idx in range(len(permutable)):
             permutable[idx][:] = _parallel_sort(permutable[idx], perm_max)
-- 
2.43.0


From bb9f3bb29864b742e25ac3d85209e7ad4d32df23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:57:27 +0000
Subject: [PATCH 13/23] fix: align permutations by score even if sequence is
 constant at some bins

---
 ssspy/algorithm/permutation_alignment.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ssspy/algorithm/permutation_alignment.py b/ssspy/algorithm/permutation_alignment.py
index a7ca41b..be0f2b6 100644
--- a/ssspy/algorithm/permutation_alignment.py
+++ b/ssspy/algorithm/permutation_alignment.py
@@ -195,7 +195,7 @@ def score_based_permutation_solver(
 
     sequence_mean = sequence.mean(axis=-1, keepdims=True)
     sequence_std = sequence.std(axis=-1, keepdims=True)
-    sequence_normalized = (sequence - sequence_mean) / sequence_std
+    sequence_normalized = (sequence - sequence_mean) / flooring_fn(sequence_std)
 
     for _ in range(global_iter):
         centroid = sequence_normalized.mean(axis=0)
-- 
2.43.0


From 677a85a0a4d44a025e622b85104574a4564e13cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:11:33 +0000
Subject: [PATCH 14/23] fix: floor variance in Gaussian IVA as documented for
 numerical stability

---
 ssspy/bss/iva.py | 31 +++++++++++++++++++++++++------
 1 file changed, 25 insertions(+), 6 deletions(-)

diff --git a/ssspy/bss/iva.py b/ssspy/bss/iva.py
index 3215fb8..a2868e8 100644
--- a/ssspy/bss/iva.py
+++ b/ssspy/bss/iva.py
@@ -2684,7 +2684,8 @@ class GradGaussIVA(GradIVA):
         X, W = self.input, self.demix_filter
         Y = self.separate(X, demix_filter=W)
 
-        self.variance = np.mean(np.abs(Y) ** 2, axis=1)
+        variance = np.mean(np.abs(Y) ** 2, axis=1)
+        self.variance = self.flooring_fn(variance)
 
 
 class NaturalGradLaplaceIVA(NaturalGradIVA):
@@ -3006,7 +3007,8 @@ class NaturalGradGaussIVA(NaturalGradIVA):
         X, W = self.input, self.demix_filter
         Y = self.separate(X, demix_filter=W)
 
-        self.variance = np.mean(np.abs(Y) ** 2, axis=1)
+        variance = np.mean(np.abs(Y) ** 2, axis=1)
+        self.variance = self.flooring_fn(variance)
 
 
 class AuxLaplaceIVA(AuxIVA):
@@ -3368,7 +3370,7 @@ class AuxGaussIVA(AuxIVA):
                 Default: ``self``.
 
         """
-        self.update_source_model()
+        self.update_source_model(flooring_fn=flooring_fn)
 
         super().update_once(flooring_fn=flooring_fn)
 
@@ -3498,12 +3500,29 @@ class AuxGaussIVA(AuxIVA):
 
         self.demix_filter = W
 
-    def update_source_model(self) -> None:
-        r"""Update variance of Gaussian distribution."""
+    def update_source_model(
+        self,
+        flooring_fn: Optional[Union[str, Callable[[np.ndarray], np.ndarray]]] = "self",
+    ) -> None:
+        r"""Update variance of Gaussian distribution.
+
+        Args:
+            flooring_fn (callable or str, optional):
+                A flooring function for numerical stability.
+                This function is expected to return the same shape tensor as the input.
+                If you explicitly set ``flooring_fn=None``,
+                the identity function (``lambda x: x``) is used.
+                If ``self`` is given as str, ``self.flooring_fn`` is used.
+                Default: ``self``.
+
+        """
+        flooring_fn = choose_flooring_fn(flooring_fn, method=self)
+
         if self.demix_filter is None:
             Y = self.output
         else:
             X, W = self.input, self.demix_filter
             Y = self.separate(X, demix_filter=W)
 
-        self.variance = np.mean(np.abs(Y) ** 2, axis=1)
+        variance = np.mean(np.abs(Y) ** 2, axis=1)
+        self.variance = flooring_fn(variance)
-- 
2.43.0


From b88c9aad448121d0b8cc54e3d627121768f71a04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:30 +0000
Subject: [PATCH 15/23] fix: floor activations in IPSDTA as in other models

---
 ssspy/bss/ipsdta.py | 46 +++++++++++++++++++++++++++++++++++++--------
 1 file changed, 38 insertions(+), 8 deletions(-)

diff --git a/ssspy/bss/ipsdta.py b/ssspy/bss/ipsdta.py
index ff997ec..fca2174 100644
--- a/ssspy/bss/ipsdta.py
+++ b/ssspy/bss/ipsdta.py
@@ -893,7 +893,7 @@ class GaussIPSDTA(BlockDecompositionIPSDTABase):
         flooring_fn = choose_flooring_fn(flooring_fn, method=self)
 
         self.update_basis_mm(flooring_fn=flooring_fn)
-        self.update_activation_mm()
+        self.update_activation_mm(flooring_fn=flooring_fn)
 
     def update_basis_mm(
         self,
@@ -981,8 +981,23 @@ class GaussIPSDTA(BlockDecompositionIPSDTABase):
 
         self.basis = T
 
-    def update_activation_mm(self) -> None:
-        r"""Update PSDTF activations by MM algorithm."""
+    def update_activation_mm(
+        self,
+        flooring_fn: Optional[Union[str, Callable[[np.ndarray], np.ndarray]]] = "self",
+    ) -> None:
+        r"""Update PSDTF activations by MM algorithm.
+
+        Args:
+            flooring_fn (callable or str, optional):
+                A flooring function for numerical stability.
+                This function is expected to return the same shape tensor as the input.
+                If you explicitly set ``flooring_fn=None``,
+                the identity function (``lambda x: x``) is used.
+                If ``self`` is given as str, ``self.flooring_fn`` is used.
+                Default: ``self``.
+
+        """
+        flooring_fn = choose_flooring_fn(flooring_fn, method=self)
 
         def _compute_traces(
             basis: np.ndarray, activation: np.ndarray, separated: np.ndarray = None
@@ -1039,7 +1054,7 @@ class GaussIPSDTA(BlockDecompositionIPSDTABase):
             Y = Y.reshape(n_sources, n_blocks, n_neighbors, n_frames)
             num, denom = _compute_traces(T, V, separated=Y)
 
-        self.activation = V * np.sqrt(num / denom)
+        self.activation = flooring_fn(V * np.sqrt(num / denom))
 
     def update_spatial_model(
         self,
@@ -1408,7 +1423,7 @@ class TIPSDTA(BlockDecompositionIPSDTABase):
         flooring_fn = choose_flooring_fn(flooring_fn, method=self)
 
         self.update_basis_mm(flooring_fn=flooring_fn)
-        self.update_activation_mm()
+        self.update_activation_mm(flooring_fn=flooring_fn)
 
     def update_basis_mm(
         self,
@@ -1538,8 +1553,23 @@ class TIPSDTA(BlockDecompositionIPSDTABase):
 
         self.basis = T
 
-    def update_activation_mm(self) -> None:
-        r"""Update PSDTF activations by MM algorithm."""
+    def update_activation_mm(
+        self,
+        flooring_fn: Optional[Union[str, Callable[[np.ndarray], np.ndarray]]] = "self",
+    ) -> None:
+        r"""Update PSDTF activations by MM algorithm.
+
+        Args:
+            flooring_fn (callable or str, optional):
+                A flooring function for numerical stability.
+                This function is expected to return the same shape tensor as the input.
+                If you explicitly set ``flooring_fn=None``,
+                the identity function (``lambda x: x``) is used.
+                If ``self`` is given as str, ``self.flooring_fn`` is used.
+                Default: ``self``.
+
+        """
+        flooring_fn = choose_flooring_fn(flooring_fn, method=self)
 
         def _quadratic(Y: np.ndarray, R: np.ndarray) -> np.ndarray:
             r"""
@@ -1638,7 +1668,7 @@ class TIPSDTA(BlockDecompositionIPSDTABase):
 
             num, denom = _compute_traces(T, V, separated=Y, weight=pi)
 
-        self.activation = V * np.sqrt(num / denom)
+        self.activation = flooring_fn(V * np.sqrt(num / denom))
 
     def update_spatial_model(
         self,
-- 
2.43.0


From 05864a40bacdc7d960e77455443742e748c3e11a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:18 +0000
Subject: [PATCH 16/23] fix: scale second-order term of FastIVA by squared norm
 so that it converges

---
 ssspy/bss/iva.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ssspy/bss/iva.py b/ssspy/bss/iva.py
index a2868e8..2891c68 100644
--- a/ssspy/bss/iva.py
+++ b/ssspy/bss/iva.py
@@ -1204,7 +1204,7 @@ class FastIVA(FastIVABase):
             \frac{G'_{\mathbb{R}}(\|\vec{\boldsymbol{y}}_{jn}\|_{2})}
             {2\|\vec{\boldsymbol{y}}_{jn}\|_{2}}
             \left(\boldsymbol{w}_{in}-y_{ijn}^{*}\boldsymbol{x}_{ij}\right) \notag \\
-            &-\frac{1}{J}\sum_{j}\frac{|y_{ijn}|^{2}}{2\|\vec{\boldsymbol{y}}_{jn}\|_{2}}\left(
+            &-\frac{1}{J}\sum_{j}\frac{|y_{ijn}|^{2}}{4\|\vec{\boldsymbol{y}}_{jn}\|_{2}^{2}}\left(
             \frac{G'_{\mathbb{R}}(\|\vec{\boldsymbol{y}}_{jn}\|_{2})}
             {\|\vec{\boldsymbol{y}}_{jn}\|_{2}}
             - G''_{\mathbb{R}}(\|\vec{\boldsymbol{y}}_{jn}\|_{2})
@@ -1227,7 +1227,7 @@ class FastIVA(FastIVABase):
         W_YZ = W_Hermite[:, :, :, np.newaxis] - YZ
         W_YZ = np.mean(varphi[:, np.newaxis, np.newaxis, :] * W_YZ, axis=-1)
 
-        Y_GG = (2 * varphi - self.dd_contrast_fn(norm)) / flooring_fn(2 * norm)
+        Y_GG = (2 * varphi - self.dd_contrast_fn(norm)) / flooring_fn(4 * norm**2)
         YY_GG = Y_GG[:, np.newaxis, :] * (np.abs(Y) ** 2)
         YY_GGW = np.mean(W_Hermite[:, :, :, np.newaxis] * YY_GG[:, np.newaxis, :, :], axis=-1)
 
-- 
2.43.0


From 3fcdaa263145c671fd53b787b832456f936eb5ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:18 +0000
Subject: [PATCH 17/23] fix: use eigenvectors minimizing the majorizer in
 FasterIVA

---
 ssspy/bss/iva.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ssspy/bss/iva.py b/ssspy/bss/iva.py
index 2891c68..abd30fb 100644
--- a/ssspy/bss/iva.py
+++ b/ssspy/bss/iva.py
@@ -1401,7 +1401,7 @@ class FasterIVA(FastIVABase):
                 Default: ``self``.
 
         In FasterIVA, we compute the eigenvector of :math:`\boldsymbol{U}_{in}`
-        which corresponds to the largest eigenvalue by solving
+        which corresponds to the smallest eigenvalue by solving
 
         .. math::
             \boldsymbol{U}_{in}\boldsymbol{w}_{in}
@@ -1427,7 +1427,7 @@ class FasterIVA(FastIVABase):
         U = np.mean(varphi_ZZ, axis=-1)  # (n_bins, n_sources, n_channels, n_channels)
 
         _, w = eigh(U)  # (n_bins, n_sources, n_channels, n_channels)
-        W = w[..., -1].conj()  # eigenvector that corresponds to largest eigenvalue
+        W = w[..., 0].conj()  # eigenvector that corresponds to smallest eigenvalue
         u, _, v_Hermite = np.linalg.svd(W)
         W = u @ v_Hermite
 
-- 
2.43.0


From 6bf249f73a517bbd621c68ad77103f0980d88bc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:36 +0000
Subject: [PATCH 18/23] fix: saturate full-scale floating-point samples in
 wavwrite instead of wrapping around

---
 ssspy/io/__init__.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/ssspy/io/__init__.py b/ssspy/io/__init__.py
index 23f2a95..6e9055e 100644
--- a/ssspy/io/__init__.py
+++ b/ssspy/io/__init__.py
@@ -80,8 +80,9 @@ def wavwrite(
     if _waveform.dtype in ["f2", "f4", "f8", "f16"]:
         bits_per_sample = 16
 
-        # float to int
-        _waveform = _waveform * 2 ** (bits_per_sample - 1)
+        # float to int (full-scale samples are saturated not to wrap around)
+        vmax = 2 ** (bits_per_sample - 1)
+        _waveform = np.clip(_waveform.astype("f8") * vmax, -vmax, vmax - 1)
         _waveform = _waveform.astype("<i2")
     elif _waveform.dtype == "i1":
         bits_per_sample = 8
-- 
2.43.0


From 540dcf359c1d19a23ec609e6d80d63410f7bd5c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:06 +0000
Subject: [PATCH 19/23] fix: 8-bit samples of WAV files are unsigned

---
 ssspy/io/__init__.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/ssspy/io/__init__.py b/ssspy/io/__init__.py
index 6e9055e..8bcbf2a 100644
--- a/ssspy/io/__init__.py
+++ b/ssspy/io/__init__.py
@@ -86,6 +86,9 @@ def wavwrite(
         _waveform = _waveform.astype("<i2")
     elif _waveform.dtype == "i1":
         bits_per_sample = 8
+
+        # 8-bit samples are unsigned in WAV
+        _waveform = (_waveform.astype("i2") + 128).astype("u1")
     elif _waveform.dtype == "i2":
         bits_per_sample = 16
     else:
@@ -179,7 +182,9 @@ def _read_data_chunk(
     if end_frame > max_frame:
         raise ValueError(f"num_frames={num_frames} exceeds maximum frame {max_frame}.")
 
-    data = np.memmap(f, dtype=f"<i{bytes_per_sample}", mode="c", offset=start, shape=shape)
+    # 8-bit samples are unsigned in WAV
+    kind = "u" if bytes_per_sample == 1 else "i"
+    data = np.memmap(f, dtype=f"<{kind}{bytes_per_sample}", mode="c", offset=start, shape=shape)
 
     if n_channels > 1:
         data = data.reshape(-1, n_channels)
@@ -195,6 +200,9 @@ def _read_data_chunk(
 
     vmax = 2 ** (8 * bytes_per_sample - 1)
 
+    if kind == "u":
+        data = data.astype("i2") - vmax
+
     return data / vmax
 
 
-- 
2.43.0


From 2d0d483421ec83f09975782b4e1e159513efae4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:06 +0000
Subject: [PATCH 20/23] fix: number of sources left to the input follows every
 input of MNMF and CACGMM

---
 ssspy/bss/cacgmm.py |  6 +++++-
 ssspy/bss/mnmf.py   | 11 +++++++++--
 2 files changed, 14 insertions(+), 3 deletions(-)

diff --git a/ssspy/bss/cacgmm.py b/ssspy/bss/cacgmm.py
index 778ce1e..35dcf35 100644
--- a/ssspy/bss/cacgmm.py
+++ b/ssspy/bss/cacgmm.py
@@ -64,6 +64,7 @@ class CACGMMBase(IterativeMethodBase):
         super().__init__(callbacks=callbacks, record_loss=record_loss)
 
         self.n_sources = n_sources
+        self._n_sources_given = n_sources is not None
 
         if flooring_fn is None:
             self.flooring_fn = identity
@@ -147,7 +148,10 @@ class CACGMMBase(IterativeMethodBase):
         n_sources = self.n_sources
         n_channels, n_bins, n_frames = X.shape
 
-        if n_sources is None:
+        if "n_sources" in kwargs:
+            self._n_sources_given = n_sources is not None
+
+        if not self._n_sources_given:
             n_sources = n_channels
 
         self.n_sources, self.n_channels = n_sources, n_channels
diff --git a/ssspy/bss/mnmf.py b/ssspy/bss/mnmf.py
index adf9dcf..35a358b 100644
--- a/ssspy/bss/mnmf.py
+++ b/ssspy/bss/mnmf.py
@@ -70,6 +70,7 @@ class MNMFBase(IterativeMethodBase):
 
         self.n_basis = n_basis
         self.n_sources = n_sources
+        self._n_sources_given = n_sources is not None
         self.partitioning = partitioning
 
         if flooring_fn is None:
@@ -153,7 +154,10 @@ class MNMFBase(IterativeMethodBase):
         n_sources = self.n_sources
         n_channels, n_bins, n_frames = X.shape
 
-        if n_sources is None:
+        if "n_sources" in kwargs:
+            self._n_sources_given = n_sources is not None
+
+        if not self._n_sources_given:
             n_sources = n_channels
 
         self.n_sources, self.n_channels = n_sources, n_channels
@@ -526,7 +530,10 @@ class FastMNMFBase(MNMFBase):
         n_sources = self.n_sources
         n_channels, n_bins, n_frames = X.shape
 
-        if n_sources is None:
+        if "n_sources" in kwargs:
+            self._n_sources_given = n_sources is not None
+
+        if not self._n_sources_given:
             n_sources = n_channels
 
         self.n_sources, self.n_channels = n_sources, n_channels
-- 
2.43.0


From 3977f7613f306c84b3a7e222b0ad5d827b185cf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:06 +0000
Subject: [PATCH 21/23] fix: default attenuation of HVA follows the number of
 sources of every input

---
 ssspy/bss/hva.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/ssspy/bss/hva.py b/ssspy/bss/hva.py
index f8ca955..a99ed95 100644
--- a/ssspy/bss/hva.py
+++ b/ssspy/bss/hva.py
@@ -91,9 +91,9 @@ class MaskingPDSHVA(MaskingPDSBSS):
             n_sources, n_bins, _ = y.shape
 
             if self.attenuation is None:
-                self.attenuation = 1 / n_sources
-
-            gamma = self.attenuation
+                gamma = 1 / n_sources
+            else:
+                gamma = self.attenuation
 
             y = self.flooring_fn(np.abs(y))
             zeta = np.log(y)
@@ -212,9 +212,9 @@ class MaskingADMMHVA(MaskingADMMBSS):
             n_sources, n_bins, _ = y.shape
 
             if self.attenuation is None:
-                self.attenuation = 1 / n_sources
-
-            gamma = self.attenuation
+                gamma = 1 / n_sources
+            else:
+                gamma = self.attenuation
 
             y = self.flooring_fn(np.abs(y))
             zeta = np.log(y)
-- 
2.43.0


From 429af36fc3545dee4277889de774fe021cfb5695 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:22 +0000
Subject: [PATCH 22/23] fix: flooring_fn=None of a partial update means no
 flooring, as documented, instead of an assertion error

---
 ssspy/utils/flooring.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/ssspy/utils/flooring.py b/ssspy/utils/flooring.py
index edcf5db..e56ff3c 100644
--- a/ssspy/utils/flooring.py
+++ b/ssspy/utils/flooring.py
@@ -10,8 +10,6 @@ def choose_flooring_fn(
     method: Optional[Any] = None,
 ) -> Callable[[np.ndarray], np.ndarray]:
     if flooring_fn is None:
-        assert method is None, "method is given, but flooring function is not specified."
-
         flooring_fn = identity
     elif type(flooring_fn) is str and flooring_fn == "self":
         if method is None or not hasattr(method, "flooring_fn"):
-- 
2.43.0


From eb7335e2c64295866fa047aea155e7cf919f391b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:45:08 +0000
Subject: [PATCH 23/23] fix: compute posterior of the given input in
 CACGMM.separate

---
 ssspy/bss/cacgmm.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ssspy/bss/cacgmm.py b/ssspy/bss/cacgmm.py
index 35dcf35..6e9f27b 100644
--- a/ssspy/bss/cacgmm.py
+++ b/ssspy/bss/cacgmm.py
@@ -583,9 +583,10 @@ class CACGMM(CACGMMBase):
 
         if posterior is None:
             alpha = self.mixing
-            Z = self.unit_input
             B = self.covariance
 
+            norm = np.linalg.norm(X, axis=0)
+            Z = X / self.flooring_fn(norm)
             Z = Z.transpose(1, 2, 0)
             B_inverse = np.linalg.inv(B)
             ZBZ = quadratic(Z, B_inverse[:, :, np.newaxis])
-- 
2.43.0

