From e5533b63f6db9685abfc1ec818e8be06bc63ca6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:42 +0000
Subject: [PATCH 01/31] fix: key cached cache predictions by machine

Layer conditions and simulated cache traffic depend on the cache hierarchy, but were stored
without the machine in their path, so a second machine got the results of the first.
---
 kerncraft/cacheprediction.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/kerncraft/cacheprediction.py b/kerncraft/cacheprediction.py
index 0d7c517..cf49401 100755
--- a/kerncraft/cacheprediction.py
+++ b/kerncraft/cacheprediction.py
@@ -264,7 +264,8 @@ class LayerConditionPredictor(CachePredictor):
             # Make use of caching for symbolic LC representation:
             file_name = 'LC_analysis.pickle.lzma'
             file_path = kernel.get_intermediate_location(
-                file_name, machine_and_compiler_dependent=False, other_dependencies=[str(cores)])
+                file_name, machine_and_compiler_dependent=False,
+                other_dependencies=[machine.get_identifier(), str(cores)])
             lock_mode, lock_fp = kernel.lock_intermediate(file_path)
             if lock_mode == fcntl.LOCK_SH:
                 # use cache
@@ -517,7 +518,8 @@ class CacheSimulationPredictor(CachePredictor):
             file_name = 'CSIM_analysis.pickle.lzma'
             file_path = kernel.get_intermediate_location(
                 file_name, machine_and_compiler_dependent=False,
-                other_dependencies=[str(cores)]+[str(t) for t in self.kernel.constants.items()])
+                other_dependencies=([machine.get_identifier(), str(cores)] +
+                                    [str(t) for t in self.kernel.constants.items()]))
             lock_mode, lock_fp = kernel.lock_intermediate(file_path)
             if lock_mode == fcntl.LOCK_SH:
                 # use cache
-- 
2.43.0


From 5734cbcb01f49313582bc285fd9ae7c38b9eedfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:00 +0000
Subject: [PATCH 02/31] fix: tell machine files of the same name apart

Intermediates were stored by base name of the machine file only, so that dir1/m.yml and
dir2/m.yml shared (and silently reused) each other's results.
---
 kerncraft/machinemodel.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/kerncraft/machinemodel.py b/kerncraft/machinemodel.py
index 173ae58..791f944 100755
--- a/kerncraft/machinemodel.py
+++ b/kerncraft/machinemodel.py
@@ -404,7 +404,9 @@ class MachineModel(object):
     def get_identifier(self):
         """Return identifier which is either the machine file name or sha256 checksum of data."""
         if self._path:
-            return os.path.basename(self._path)
+            # files of the same name may exist in different directories
+            path_hash = hashlib.sha256(os.path.realpath(self._path).encode()).hexdigest()
+            return os.path.basename(self._path) + '-' + path_hash[:8]
         else:
             return hashlib.sha256(hashlib.sha256(repr(self._data).encode())).hexdigest()
 
-- 
2.43.0


From 813584bdd4efda16154a6b282b15273c0f406531 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:00 +0000
Subject: [PATCH 03/31] fix: key in-core analysis by marked block and pointer
 increment

The stored analysis and the object assembled for IACA did not depend on --asm-block and
--pointer-increment: the first choice was silently reused for all later ones.
---
 kerncraft/kernel.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/kerncraft/kernel.py b/kerncraft/kernel.py
index 2baa796..26c63a3 100755
--- a/kerncraft/kernel.py
+++ b/kerncraft/kernel.py
@@ -1582,11 +1582,12 @@ class KernelCode(Kernel):
         """
         Assemble *in_filename* assembly into *out_filename* object.
 
+        The object is placed next to the assembly file.
+
         Returns tuple of filename to binary file and shared lock file pointer
         """
         # Build file name
-        file_base_name = os.path.splitext(os.path.basename(in_filename))[0]
-        out_filename = self.get_intermediate_location(file_base_name + '.o')
+        out_filename = os.path.splitext(in_filename)[0] + '.o'
         lock_mode, lock_fp = self.lock_intermediate(out_filename)
 
         if lock_mode == fcntl.LOCK_SH:
@@ -1699,7 +1700,7 @@ class KernelCode(Kernel):
         model_parameter = self._machine['in-core model'][model]
 
         analysis_filename = self.get_intermediate_location('incore_analysis.pickle.lzma',
-            other_dependencies=[model, str(model_parameter)])
+            other_dependencies=[model, str(model_parameter), asm_block, pointer_increment])
         analysis_lock_mode, analysis_lock_fp = self.lock_intermediate(analysis_filename)
         if analysis_lock_mode == fcntl.LOCK_SH:
             # use cached analysis
-- 
2.43.0


From 27579a09e0bb67e58ae1f4ab2acab2adbf4c6de2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:51 +0000
Subject: [PATCH 04/31] fix: do not reuse a cache simulator built for another
 number of cores

MachineModel kept the first simulator regardless of the requested cores, so what was predicted
depended on which model or cached result came first; the LC model ignored --cores altogether
while printing the sizes for it.
---
 kerncraft/machinemodel.py           | 3 ++-
 kerncraft/models/layer_condition.py | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/kerncraft/machinemodel.py b/kerncraft/machinemodel.py
index 791f944..bd45c1f 100755
--- a/kerncraft/machinemodel.py
+++ b/kerncraft/machinemodel.py
@@ -424,7 +424,7 @@ class MachineModel(object):
 
         :param cores: core count (default: 1)
         """
-        if hasattr(self, '_cachesimulator'):
+        if getattr(self, '_cachesimulator_cores', None) == cores:
             self._cachesimulator.mark_all_invalid()
             self._cachesimulator.reset_stats()
         else:
@@ -440,6 +440,7 @@ class MachineModel(object):
                     cache_dict[c['level']]['sets'] //= min(cores, self['cores per NUMA domain'])
 
             self._cachesimulator, caches, mem = cachesim.CacheSimulator.from_dict(cache_dict)
+            self._cachesimulator_cores = cores
 
         return self._cachesimulator
 
diff --git a/kerncraft/models/layer_condition.py b/kerncraft/models/layer_condition.py
index fc89b3c..5d610f9 100755
--- a/kerncraft/models/layer_condition.py
+++ b/kerncraft/models/layer_condition.py
@@ -46,7 +46,8 @@ class LC(PerformanceModel):
 
     def analyze(self):
         """Run complete analysis."""
-        lcp = LayerConditionPredictor(self.kernel, self.machine, symbolic=True)
+        lcp = LayerConditionPredictor(self.kernel, self.machine, symbolic=True,
+                                      cores=self._args.cores if self._args else 1)
         self.results = lcp.results
 
     def report(self, output_file=sys.stdout):
-- 
2.43.0


From b0e686f874784466084b866ebfef3acba238d558 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:51 +0000
Subject: [PATCH 05/31] fix: run kernels without constants

The empty definition was a dict, which can not be part of the key results are stored under:
every run ended in 'TypeError: unhashable type' after its first report.
---
 kerncraft/kerncraft.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kerncraft/kerncraft.py b/kerncraft/kerncraft.py
index 6e96958..f284331 100755
--- a/kerncraft/kerncraft.py
+++ b/kerncraft/kerncraft.py
@@ -370,7 +370,7 @@ def run(parser, args, output_file=sys.stdout):
             raise ValueError("Not all constants have been defined. Required are: {}".format(
                 required_consts))
     else:
-        define_product = [{}]
+        define_product = [()]
 
     for define in define_product:
         # Reset state of kernel
-- 
2.43.0


From 0fe998e8d8b79ab3ce54cbeec37f7a199b70521b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:05 +0000
Subject: [PATCH 06/31] fix: publish intermediates as a whole

Compilers and kerncraft wrote intermediates in place. A run that was killed or
ran out of disk space left partial files, which later runs took for fresh.
---
 kerncraft/cacheprediction.py |  10 ++--
 kerncraft/kernel.py          | 103 ++++++++++++++++++++++-------------
 2 files changed, 71 insertions(+), 42 deletions(-)

diff --git a/kerncraft/cacheprediction.py b/kerncraft/cacheprediction.py
index cf49401..b6b16ce 100755
--- a/kerncraft/cacheprediction.py
+++ b/kerncraft/cacheprediction.py
@@ -274,7 +274,8 @@ class LayerConditionPredictor(CachePredictor):
             else:  # lock_mode == fcntl.LOCK_EX
                 # needs update
                 self.build_symbolic_LCs()
-                compress_pickle.dump(self.results, file_path)
+                with kernel.update_intermediate(file_path) as temp_path:
+                    compress_pickle.dump(self.results, temp_path)
                 lock_fp.close()  # release lock
         else:
             # No caching support without filename for kernel code
@@ -531,9 +532,10 @@ class CacheSimulationPredictor(CachePredictor):
             else:  # lock_mode == fcntl.LOCK_EX
                 # needs update
                 self.simulate()
-                compress_pickle.dump(
-                    {'first_dim_factor': self.first_dim_factor, 'stats': self.stats, 'pretty_stats': self.pretty_stats},
-                    file_path)
+                with kernel.update_intermediate(file_path) as temp_path:
+                    compress_pickle.dump(
+                        {'first_dim_factor': self.first_dim_factor, 'stats': self.stats, 'pretty_stats': self.pretty_stats},
+                        temp_path)
                 lock_fp.close()  # release lock
         else:
             # No caching support without filename for kernel code
diff --git a/kerncraft/kernel.py b/kerncraft/kernel.py
index 26c63a3..3fd0493 100755
--- a/kerncraft/kernel.py
+++ b/kerncraft/kernel.py
@@ -862,6 +862,24 @@ class KernelCode(Kernel):
                   "THIS MAY BREAK IN SHARED USE!",
                   file=sys.stderr)
 
+    @contextmanager
+    def update_intermediate(self, file_path):
+        """
+        Context manager to create or replace an intermediate file as a whole.
+
+        Yields the path to write to, which is moved to *file_path* on success. Thus, no partial file
+        is ever taken for a fresh intermediate, even if this process gets interrupted.
+
+        :param file_path: path of intermediate, exclusive lock on it must be held
+        """
+        temp_dir = tempfile.mkdtemp(prefix='.tmp', dir=os.path.dirname(file_path))
+        try:
+            temp_path = os.path.join(temp_dir, os.path.basename(file_path))
+            yield temp_path
+            os.replace(temp_path, file_path)
+        finally:
+            shutil.rmtree(temp_dir, ignore_errors=True)
+
     def _strip_comments(self, code):
         clean_code = []
         for l in code.split('\n'):
@@ -1383,8 +1401,9 @@ class KernelCode(Kernel):
             func_decl = self._build_kernel_function_declaration(name=name)
             code = CGenerator().visit(
                 c_ast.FileAST(ext=[func_decl]))
-            with open(file_path, 'w') as f:
-                f.write(code)
+            with self.update_intermediate(file_path) as temp_path:
+                with open(temp_path, 'w') as f:
+                    f.write(code)
             self.release_exclusive_lock(lock_fp)  # degrade to shared lock
 
         return file_name, lock_fp
@@ -1451,8 +1470,9 @@ class KernelCode(Kernel):
                 code = re.sub('#pragma omp[^\n]*\n', '', code)
 
             # Store to file
-            with open(file_path, 'w') as f:
-                f.write(code)
+            with self.update_intermediate(file_path) as temp_path:
+                with open(temp_path, 'w') as f:
+                    f.write(code)
             self.release_exclusive_lock(lock_fp)  # degrade to shared lock
 
         return file_path, lock_fp
@@ -1571,8 +1591,9 @@ class KernelCode(Kernel):
                    '\n\n' + code
 
             # Store to file
-            with open(file_path, 'w') as f:
-                f.write(code)
+            with self.update_intermediate(file_path) as temp_path:
+                with open(temp_path, 'w') as f:
+                    f.write(code)
             self.release_exclusive_lock(lock_fp)  # degrade to shared lock
 
         return file_path, lock_fp
@@ -1600,14 +1621,15 @@ class KernelCode(Kernel):
             # Compile to object file
             compiler_args.append('-c')
 
-            cmd = [compiler] + [in_filename] + compiler_args + ['-o', out_filename]
+            cmd = [compiler] + [in_filename] + compiler_args
 
             if verbose:
-                print('Executing (assemble_to_object): ', ' '.join(cmd))
+                print('Executing (assemble_to_object): ', ' '.join(cmd + ['-o', out_filename]))
 
             try:
                 # Assemble all to a binary
-                subprocess.check_output(cmd)
+                with self.update_intermediate(out_filename) as temp_filename:
+                    subprocess.check_output(cmd + ['-o', temp_filename])
                 self.release_exclusive_lock(lock_fp)  # degrade to shared lock
             except subprocess.CalledProcessError as e:
                 print("Assembly failed:", e, file=sys.stderr)
@@ -1655,25 +1677,27 @@ class KernelCode(Kernel):
             if verbose:
                 print('Executing (compile_kernel): ', ' '.join(cmd))
 
-            try:
-                subprocess.check_output(cmd)
-                in_lock_fp.close()
-                header_lock_fp.close()
-
-            except subprocess.CalledProcessError as e:
-                print("Compilation failed:", e, file=sys.stderr)
-                sys.exit(1)
-
-            # FIXME TODO FIXME TODO FIXME TODO
-            # Hacky workaround for icc issue (icc may issue vkmovb instructions with AVX512, which 
-            # are invalid and should be kmovb):
-            if compiler == 'icc' and assembly:
-                with open(out_filename, 'r+') as f:
-                    assembly = f.read()
-                    f.seek(0)
-                    f.write(assembly.replace('vkmovb', 'kmovb'))
-                    f.truncate()
-            # FIXME TODO FIXME TODO FIXME TODO
+            with self.update_intermediate(out_filename) as temp_filename:
+                cmd[cmd.index('-o') + 1] = temp_filename
+                try:
+                    subprocess.check_output(cmd)
+                    in_lock_fp.close()
+                    header_lock_fp.close()
+
+                except subprocess.CalledProcessError as e:
+                    print("Compilation failed:", e, file=sys.stderr)
+                    sys.exit(1)
+
+                # FIXME TODO FIXME TODO FIXME TODO
+                # Hacky workaround for icc issue (icc may issue vkmovb instructions with AVX512,
+                # which are invalid and should be kmovb):
+                if compiler == 'icc' and assembly:
+                    with open(temp_filename, 'r+') as f:
+                        assembly = f.read()
+                        f.seek(0)
+                        f.write(assembly.replace('vkmovb', 'kmovb'))
+                        f.truncate()
+                # FIXME TODO FIXME TODO FIXME TODO
 
             self.release_exclusive_lock(out_lock_fp)  # degrade to shared lock
 
@@ -1726,12 +1750,13 @@ class KernelCode(Kernel):
         else:  # analysis_lock_mode == fcntl.LOCK_EX
             # marked assembly needs update
             asm_filename, asm_lock_fp = self.compile_kernel(assembly=True, verbose=verbose)
-            with open(asm_filename, 'r') as in_file, open(marked_filename, 'w') as out_file:
-                asm_block, self.pointer_increment = incore_model.asm_instrumentation(
-                    in_file, out_file,
-                    block_selection=asm_block,
-                    pointer_increment=pointer_increment,
-                    isa=self._machine['isa'])
+            with self.update_intermediate(marked_filename) as temp_filename:
+                with open(asm_filename, 'r') as in_file, open(temp_filename, 'w') as out_file:
+                    asm_block, self.pointer_increment = incore_model.asm_instrumentation(
+                        in_file, out_file,
+                        block_selection=asm_block,
+                        pointer_increment=pointer_increment,
+                        isa=self._machine['isa'])
             asm_lock_fp.close()
             self.release_exclusive_lock(marked_lock_fp)  # degrade to shared lock
 
@@ -1747,7 +1772,8 @@ class KernelCode(Kernel):
             obj_lock_fp.close()
         else:
             raise ValueError("Unknown micro-architecture model: {!r}".format(model))
-        compress_pickle.dump((analysis, self.pointer_increment), analysis_filename)
+        with self.update_intermediate(analysis_filename) as temp_filename:
+            compress_pickle.dump((analysis, self.pointer_increment), temp_filename)
         analysis_lock_fp.close()
         marked_lock_fp.close()
         return analysis, self.pointer_increment
@@ -1800,13 +1826,14 @@ class KernelCode(Kernel):
                 os.path.realpath(__file__)))+'/headers/dummy.c'),
                        kernel_obj_filename, main_filename]
 
-            cmd = [compiler] + infiles + compiler_args + ['-o', out_filename]
+            cmd = [compiler] + infiles + compiler_args
             # remove empty arguments
             cmd = list(filter(bool, cmd))
             if verbose:
-                print('Executing (build_executable): ', ' '.join(cmd))
+                print('Executing (build_executable): ', ' '.join(cmd + ['-o', out_filename]))
             try:
-                subprocess.check_output(cmd)
+                with self.update_intermediate(out_filename) as temp_filename:
+                    subprocess.check_output(cmd + ['-o', temp_filename])
                 main_lock_fp.close()
                 kernel_obj_lock_fp.close()
                 self.release_exclusive_lock(out_lock_fp)  # degrade to shared lock
-- 
2.43.0


From 50adc0bf14ff8608644dbcdfff16b18cd991bdc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:17 +0000
Subject: [PATCH 07/31] fix: do not mix up True and 1 in constant substitution

Evaluating a layer condition that always holds cached True for the expression
1 as well, which broke the loop step in later models of the same invocation.
---
 kerncraft/kernel.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kerncraft/kernel.py b/kerncraft/kernel.py
index 3fd0493..514d30b 100755
--- a/kerncraft/kernel.py
+++ b/kerncraft/kernel.py
@@ -287,7 +287,7 @@ class Kernel(object):
         self.subs_consts.cache_clear()
         self.global_iterator.cache_clear()
 
-    @lru_cache(40)
+    @lru_cache(40, typed=True)  # 1 == True, but they must not share an entry
     def subs_consts(self, expr):
         """Substitute constants in expression unless it is already a number."""
         if isinstance(expr, numbers.Number):
-- 
2.43.0


From ad995df373c7fbb24e8273d5dc89f01f65752945 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:30:38 +0000
Subject: [PATCH 08/31] fix: let picklemerge work again

collections.Mapping is gone since Python 3.10. Also replace values by
dictionaries, if only the source contains a dictionary.
---
 kerncraft/picklemerge.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/kerncraft/picklemerge.py b/kerncraft/picklemerge.py
index e2bf290..60d59f8 100755
--- a/kerncraft/picklemerge.py
+++ b/kerncraft/picklemerge.py
@@ -2,7 +2,7 @@
 """Merge two pickle files containing dictionarys recursively."""
 import argparse
 import pickle
-import collections
+from collections.abc import Mapping
 
 
 def update(d, u):
@@ -12,8 +12,8 @@ def update(d, u):
     Origin: http://stackoverflow.com/a/3233356/2754040
     """
     for k, v in u.items():
-        if isinstance(v, collections.Mapping):
-            r = update(d.get(k, {}), v)
+        if isinstance(v, Mapping):
+            r = update(d[k] if isinstance(d.get(k), Mapping) else {}, v)
             d[k] = r
         else:
             d[k] = u[k]
@@ -33,11 +33,11 @@ def main():
     args = parser.parse_args()
 
     result = pickle.load(args.destination)
-    assert isinstance(result, collections.Mapping), "only Mapping types can be handled."
+    assert isinstance(result, Mapping), "only Mapping types can be handled."
 
     for s in args.source:
         data = pickle.load(s)
-        assert isinstance(data, collections.Mapping), "only Mapping types can be handled."
+        assert isinstance(data, Mapping), "only Mapping types can be handled."
 
         update(result, data)
 
-- 
2.43.0


From d030ec3790b655c193ac611ea61af9d93e314e36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:30:38 +0000
Subject: [PATCH 09/31] fix: do not lose results in stores written concurrently

Stores were read at start and overwritten at the end through a temporary file of
fixed name, so results of other runs got lost and files could be damaged by
concurrent writers. picklemerge truncated its destination before writing.
---
 kerncraft/kerncraft.py        | 18 +++++------
 kerncraft/picklemerge.py      | 60 ++++++++++++++++++++++++++++-------
 kerncraft/standalone_pheno.py | 29 ++++-------------
 3 files changed, 65 insertions(+), 42 deletions(-)

diff --git a/kerncraft/kerncraft.py b/kerncraft/kerncraft.py
index f284331..84890b9 100755
--- a/kerncraft/kerncraft.py
+++ b/kerncraft/kerncraft.py
@@ -6,7 +6,6 @@ import argparse
 import os.path
 import json
 import pickle
-import shutil
 import math
 import re
 import itertools
@@ -23,6 +22,7 @@ from . import __version__
 from .prefixedunit import PrefixedUnit
 from .kernel import KernelCode, KernelDescription, symbol_pos_int
 from .machinemodel import MachineModel
+from .picklemerge import replace_file, update_pickle
 from .pycparser_utils import clean_code
 
 
@@ -305,6 +305,7 @@ def run(parser, args, output_file=sys.stdout):
     """Run command line interface."""
     # Try loading results file (if requested)
     result_storage = {}
+    new_results = {}
     if args.store:
         args.store.seek(0)
         try:
@@ -406,21 +407,20 @@ def run(parser, args, output_file=sys.stdout):
             result_identifier = identifier_from_arguments(
                 args, define=to_tuple(define), pmodel=model_name)
             result_storage[result_identifier] = model.results
+            new_results[result_identifier] = model.results
 
             print('', file=output_file)
 
         # Save storage to file (if requested)
         if args.store:
-            temp_name = args.store.name + '.tmp'
-            with open(temp_name, 'wb+') as f:
-                pickle.dump(result_storage, f)
-            shutil.move(temp_name, args.store.name)
+            # Results of other runs may have been added since it was loaded
+            with update_pickle(args.store.name) as stored_results:
+                stored_results.update(new_results)
         if args.json:
-            temp_name = args.json.name + '.tmp'
             json_dict = jsonify_obj(result_storage)
-            with open(temp_name, 'w+') as f:
-                json.dump(json_dict, f, indent=4)
-            shutil.move(temp_name, args.json.name)
+            with replace_file(args.json.name) as temp_name:
+                with open(temp_name, 'w+') as f:
+                    json.dump(json_dict, f, indent=4)
     return result_storage
 
 
diff --git a/kerncraft/picklemerge.py b/kerncraft/picklemerge.py
index 60d59f8..b16701e 100755
--- a/kerncraft/picklemerge.py
+++ b/kerncraft/picklemerge.py
@@ -1,8 +1,12 @@
 #!/usr/bin/env python3
 """Merge two pickle files containing dictionarys recursively."""
 import argparse
-import pickle
 from collections.abc import Mapping
+from contextlib import contextmanager
+import fcntl
+import os
+import pickle
+import sys
 
 
 def update(d, u):
@@ -20,6 +24,43 @@ def update(d, u):
     return d
 
 
+@contextmanager
+def replace_file(file_name):
+    """
+    Context manager to replace *file_name* as a whole.
+
+    Yields path to write new content to, which is moved to *file_name* on success. Replacements of
+    files in the same directory are serialized.
+    """
+    # The directory is locked, because the file itself gets replaced
+    lock_fd = os.open(os.path.dirname(os.path.abspath(file_name)), os.O_RDONLY)
+    try:
+        try:
+            fcntl.flock(lock_fd, fcntl.LOCK_EX)
+        except OSError:
+            print("WARNING: locking does not work on this filesystem! Assuming exclusive access! "
+                  "THIS MAY BREAK IF MULTIPLE KERNCRAFT INSTANCES RUN IN PARALLEL!",
+                  file=sys.stderr)
+        temp_name = file_name + '.tmp'
+        yield temp_name
+        os.replace(temp_name, file_name)
+    finally:
+        os.close(lock_fd)
+
+
+@contextmanager
+def update_pickle(file_name):
+    """Context manager to load, change and save the dictionary pickled in *file_name*."""
+    with replace_file(file_name) as temp_name:
+        data = {}
+        if os.path.exists(file_name) and os.path.getsize(file_name) > 0:
+            with open(file_name, 'rb') as f:
+                data = pickle.load(f)
+        yield data
+        with open(temp_name, 'wb') as f:
+            pickle.dump(data, f)
+
+
 def main():
     """Comand line interface of picklemerge."""
     parser = argparse.ArgumentParser(
@@ -32,18 +73,15 @@ def main():
 
     args = parser.parse_args()
 
-    result = pickle.load(args.destination)
-    assert isinstance(result, Mapping), "only Mapping types can be handled."
-
-    for s in args.source:
-        data = pickle.load(s)
-        assert isinstance(data, Mapping), "only Mapping types can be handled."
+    args.destination.close()
+    with update_pickle(args.destination.name) as result:
+        assert isinstance(result, Mapping), "only Mapping types can be handled."
 
-        update(result, data)
+        for s in args.source:
+            data = pickle.load(s)
+            assert isinstance(data, Mapping), "only Mapping types can be handled."
 
-    args.destination.seek(0)
-    args.destination.truncate()
-    pickle.dump(result, args.destination)
+            update(result, data)
 
 
 if __name__ == '__main__':
diff --git a/kerncraft/standalone_pheno.py b/kerncraft/standalone_pheno.py
index 7dd6db5..9fc9ae8 100644
--- a/kerncraft/standalone_pheno.py
+++ b/kerncraft/standalone_pheno.py
@@ -3,8 +3,6 @@
 import sys
 import argparse
 import os.path
-import pickle
-import shutil
 import math
 import re
 import itertools
@@ -18,6 +16,7 @@ from .kerncraft import space
 from .models.standalone_benchmark import StandaloneBenchmark
 from .kernel import BinaryDescription, symbol_pos_int
 from .machinemodel import MachineModel
+from .picklemerge import update_pickle
 
 
 class AppendStringRange(argparse.Action):
@@ -331,14 +330,7 @@ def check_arguments(args, parser):
 
 def run(parser, args, output_file = sys.stdout):
     """Run command line interface."""
-    # try loading  results file (if requested)
-    result_storage = {}
     if args.store:
-        args.store.seek(0)
-        try:
-            result_storage = pickle.load(args.store)
-        except EOFError:
-            pass
         args.store.close()
 
     # read machine description
@@ -377,22 +369,15 @@ def run(parser, args, output_file = sys.stdout):
 
     model.report(output_file = output_file)
 
-    # add results to storage
-    bin_name = os.path.split(kernel.binary)[1]
-    if bin_name not in result_storage:
-        result_storage[bin_name] = {}
-    if tuple(kernel.constants.items()) not in result_storage[bin_name]:
-        result_storage[bin_name][tuple(kernel.constants.items())] = {}
-    result_storage[bin_name][tuple(kernel.constants.items())][model.name] = model.results
-
     print('', file = output_file)
 
-    # save storage to file (if requested)
+    # add results to storage (if requested)
     if args.store:
-        temp_name = args.store.name + '.tmp'
-        with open(temp_name, 'wb+') as f:
-            pickle.dump(result_storage, f)
-        shutil.move(temp_name, args.store.name)
+        bin_name = os.path.split(kernel.binary)[1]
+        with update_pickle(args.store.name) as result_storage:
+            bin_results = result_storage.setdefault(bin_name, {})
+            constants = tuple(kernel.constants.items())
+            bin_results.setdefault(constants, {})[model.name] = model.results
 
 
 def main():
-- 
2.43.0


From d5bd0acd2c488dde59bc5966338428074708258f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:48:07 +0000
Subject: [PATCH 10/31] fix: keep counters of one event measured in several
 runs

Counters of later runs replaced those of the same event measured at other
registers before, and counters with options without value were not recognized.
---
 kerncraft/models/benchmark.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/kerncraft/models/benchmark.py b/kerncraft/models/benchmark.py
index 9f6b840..3e47d22 100755
--- a/kerncraft/models/benchmark.py
+++ b/kerncraft/models/benchmark.py
@@ -252,7 +252,7 @@ def perfctr(cmd, cores, group='MEM', code_markers=True, verbose=0):
             else:
                 counter_value = int(line[2])
             if re.fullmatch(r'[A-Z0-9_]+', line[0]) and \
-                    re.fullmatch(r'[A-Z0-9]+(:[A-Z0-9]+=[0-9a-fA-Fx]+)*', line[1]):
+                    re.fullmatch(r'[A-Z0-9]+(:[A-Za-z0-9\-_=]+)*', line[1]):
                 results.setdefault(line[0], {})
                 results[line[0]][line[1]] = counter_value
                 continue
@@ -433,7 +433,10 @@ class Benchmark(PerformanceModel):
                 ctrs = ','.join([eventstr(e) for e in run])
                 r = self.perfctr([bench_filename] + [str(repetitions)] + args, group=ctrs)
                 raw_results.append(r)
-                measured_ctrs.update(r)
+                for event, ctr_values in r.items():
+                    # The same event may have been measured at other registers in earlier runs
+                    if isinstance(ctr_values, dict):
+                        measured_ctrs.setdefault(event, {}).update(ctr_values)
             bench_lock_fp.close()
             # Match measured counters to symbols
             event_counter_results = {}
-- 
2.43.0


From 7e3947f4f58d3848f53360fcd0d1b73f79f1a631 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:48:29 +0000
Subject: [PATCH 11/31] fix: tell counters apart whose names contain each other

References to counters in metrics were replaced one by one in the whole metric, which
broke metrics with one reference being part of another.
---
 kerncraft/machinemodel.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/kerncraft/machinemodel.py b/kerncraft/machinemodel.py
index bd45c1f..ed21697 100755
--- a/kerncraft/machinemodel.py
+++ b/kerncraft/machinemodel.py
@@ -591,14 +591,15 @@ class MachineModel(object):
         """Return (sympy expressions, event names and symbols dict) from performance metric str."""
         metric = str(metric)
         # Find all perfs counter references
-        perfcounters = re.findall(r'[A-Z0-9_]+:[A-Z0-9\[\]|\-]+(?::[A-Za-z0-9\-_=]+)*', metric)
+        perfcounter_regex = r'[A-Z0-9_]+:[A-Z0-9\[\]|\-]+(?::[A-Za-z0-9\-_=]+)*'
+        perfcounters = re.findall(perfcounter_regex, metric)
 
         # Build a temporary metric, with parser-friendly Symbol names
-        temp_metric = metric
-        temp_pc_names = {"SYM{}".format(re.sub("[\[\]\-|=:]", "_", pc)): pc
-                         for i, pc in enumerate(perfcounters)}
-        for var_name, pc in temp_pc_names.items():
-            temp_metric = temp_metric.replace(pc, var_name)
+        def var_name(pc):
+            return "SYM{}".format(re.sub("[\[\]\-|=:]", "_", pc))
+        temp_pc_names = {var_name(pc): pc for pc in perfcounters}
+        # Whole references are replaced, one may be part of another
+        temp_metric = re.sub(perfcounter_regex, lambda m: var_name(m.group()), metric)
         # Parse temporary expression
         expr = parse_expr(temp_metric)
 
-- 
2.43.0


From 6f72e8930e18b0e159acb04771b15df0fa03b5b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:49:05 +0000
Subject: [PATCH 12/31] fix: run benchmarks with machine files without memory
 metrics

A level without performance counter metrics let benchmarks fail, even if the
phenomenological ECM was not asked for.
---
 kerncraft/models/benchmark.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/kerncraft/models/benchmark.py b/kerncraft/models/benchmark.py
index 3e47d22..72ac07d 100755
--- a/kerncraft/models/benchmark.py
+++ b/kerncraft/models/benchmark.py
@@ -418,6 +418,10 @@ class Benchmark(PerformanceModel):
             print('Disabled Phenomenological ECM, due to syntax error in machine file '
                     'metrics:', e, file=sys.stderr)
             self.no_phenoecm = True
+        except KeyError as e:
+            print('Disabled Phenomenological ECM, due to missing entry in machine file '
+                    'metrics:', e, file=sys.stderr)
+            self.no_phenoecm = True
 
         # Gather remaining counters
         if self.no_phenoecm:
-- 
2.43.0


From 9a23647fd491c66b1b6bafd177fa28b84a149804 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:56:33 +0000
Subject: [PATCH 13/31] fix: let stand-alone benchmark terminate and count per
 region

Unmeasurably short runs were repeated forever, the number of repetitions obtained from
markers was taken from the last region for all regions, and adjusted variables were
only considered in loops of the regions they were adjusted for.
---
 kerncraft/kernel.py                      |  3 ++-
 kerncraft/models/standalone_benchmark.py | 21 ++++++++++++---------
 2 files changed, 14 insertions(+), 10 deletions(-)

diff --git a/kerncraft/kernel.py b/kerncraft/kernel.py
index 514d30b..cf8e98a 100755
--- a/kerncraft/kernel.py
+++ b/kerncraft/kernel.py
@@ -1996,7 +1996,8 @@ class BinaryDescription(Kernel):
                         print('WARNING: used default value for loop information in region '
                               '{}.'.format(region))
                 if not region in self.repetitions:
-                    self.repetitions[region] = self.repetitions['']
+                    # Number of repetitions may be measured and differ between regions
+                    self.repetitions[region] = dict(self.repetitions[''])
                     if self.args.verbose > 1:
                         print('WARNING: used default value for repetition information in region '
                               '{}.'.format(region))
diff --git a/kerncraft/models/standalone_benchmark.py b/kerncraft/models/standalone_benchmark.py
index 2e5c3c0..0b676e1 100644
--- a/kerncraft/models/standalone_benchmark.py
+++ b/kerncraft/models/standalone_benchmark.py
@@ -11,6 +11,7 @@ from collections import defaultdict
 import string
 import pprint
 import contextlib
+import itertools
 
 from math import ceil
 
@@ -183,11 +184,11 @@ class StandaloneBenchmark(PerformanceModel):
         The first variables defined will be adjusted first.
         """
 
-        def adjust_loop(varname, region):
-            for i in range(len(self.kernel.loops[region])):
-                if self.kernel.loops[region][i]['variable'] == varname:
-                    self.kernel.loops[region][i]['end'] = self.kernel.define[varname]['value'] - \
-                        self.kernel.loops[region][i]['offset']
+        def adjust_loop(varname):
+            # Variables are arguments of the binary and affect the loops of all regions
+            for loop in itertools.chain(*self.kernel.loops.values()):
+                if loop['variable'] == varname:
+                    loop['end'] = self.kernel.define[varname]['value'] - loop['offset']
 
         adjustable = False
 
@@ -201,19 +202,20 @@ class StandaloneBenchmark(PerformanceModel):
         for region in regions:
             for name, variable in self.kernel.define.items():
                 if variable['adjustable'] and region in variable['region']:
-                    factor = ceil(2.0 / runtimes[region])
+                    # Runtime may be too short to be measured
+                    factor = ceil(2.0 / runtimes[region]) if runtimes[region] > 0.0 else 10
                     if variable['scale'] == 'lin' and variable['value'] < variable['stop']:
                         self.kernel.define[name]['value'] = min(variable['value'] * factor,
                                                                 variable['stop'])
                         self.kernel.set_constant(name, self.kernel.define[name]['value'])
-                        adjust_loop(name, region)
+                        adjust_loop(name)
                         adjustable = True
                         break
                     elif variable['scale'] == 'log' and variable['value'] > variable['stop']:
                         self.kernel.define[name]['value'] = max(
                             variable['value'] * (10 ** (-factor)),variable['stop'])
                         self.kernel.set_constant(name, self.kernel.define[name]['value'])
-                        adjust_loop(name, region)
+                        adjust_loop(name)
                         adjustable = True
                         break
 
@@ -247,7 +249,8 @@ class StandaloneBenchmark(PerformanceModel):
 
         while min(runtimes.values()) < 1.5:
 
-            if min(runtimes.values()) == 0.0:
+            if time_per_repetition is None:
+                # nothing measured so far
                 adjustable = True
             else:
                 adjustable = self.adjust_variables(runtimes)
-- 
2.43.0


From debe7cf1decb0bae24fc3b0516f43cf6d18af7b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:01:07 +0000
Subject: [PATCH 14/31] fix: let stand-alone benchmark build phenomenological
 ECM models

It still expected the metrics of old machine files, ignored options of counters and
mixed up counters of one event.
---
 kerncraft/models/standalone_benchmark.py | 48 +++++++++++++-----------
 1 file changed, 27 insertions(+), 21 deletions(-)

diff --git a/kerncraft/models/standalone_benchmark.py b/kerncraft/models/standalone_benchmark.py
index 0b676e1..243d1e9 100644
--- a/kerncraft/models/standalone_benchmark.py
+++ b/kerncraft/models/standalone_benchmark.py
@@ -144,7 +144,8 @@ class StandaloneBenchmark(PerformanceModel):
                     counter_value = 0
                 else:
                     counter_value = int(line[2])
-                if re.fullmatch(r'[A-Z0-9_]+', line[0]) and re.fullmatch(r'[A-Z0-9]+', line[1]):
+                if re.fullmatch(r'[A-Z0-9_]+', line[0]) and \
+                        re.fullmatch(r'[A-Z0-9]+(:[A-Za-z0-9\-_=]+)*', line[1]):
                     results[current_region].setdefault(line[0], {})
                     results[current_region][line[0]][line[1]] = counter_value
                     continue
@@ -324,11 +325,10 @@ class StandaloneBenchmark(PerformanceModel):
                 self.machine['non-overlapping model']['performance counter metric'])
             event_counters.update(event_dict)
             cache_metrics = defaultdict(dict)
-            for i in range(len(self.machine['memory hierarchy']) - 1):
-                cache_info = self.machine['memory hierarchy'][i]
+            for cache_info in self.machine['memory hierarchy']:
                 name = cache_info['level']
                 for k, v in cache_info['performance counter metrics'].items():
-                    cache_metrics[name][k], event_dict = self.machine.parse_perfmetric(v)
+                    cache_metrics[name][k], event_dict = self.machine.parse_perfmetric(str(v))
                     event_counters.update(event_dict)
 
             # Compile minimal runs to gather all required events
@@ -344,7 +344,10 @@ class StandaloneBenchmark(PerformanceModel):
                 raw_results_collection.append(r)
 
                 for region in self.kernel.regions:
-                    measured_ctrs[region].update(r[region])
+                    for event, ctr_values in r[region].items():
+                        # The same event may have been measured at other registers before
+                        if isinstance(ctr_values, dict):
+                            measured_ctrs[region].setdefault(event, {}).update(ctr_values)
 
 
         # start analysing for each region
@@ -364,7 +367,10 @@ class StandaloneBenchmark(PerformanceModel):
                 # Match measured counters to symbols
                 event_counter_results = {}
                 for sym, ctr in event_counters.items():
-                    event, regs, parameter = ctr[0], register_options(ctr[1]), ctr[2]
+                    event, regs, parameters = ctr[0], register_options(ctr[1]), ctr[2]
+                    if parameters:
+                        parameter_str = ':'.join(parameters)
+                        regs = [r+':'+parameter_str for r in regs]
                     for r in regs:
                         if r in measured_ctrs[region][event]:
                             event_counter_results[sym] = measured_ctrs[region][event][r]
@@ -384,7 +390,8 @@ class StandaloneBenchmark(PerformanceModel):
                 cache_transfers_per_cl = {cache: {k: PrefixedUnit(v / total_cachelines, 'CL/CL')
                                                   for k, v in d.items()}
                                           for cache, d in cache_metric_results.items()}
-                cache_transfers_per_cl['L1']['accesses'].unit = 'LOAD/CL'
+                cache_transfers_per_cl['L1']['loads'].unit = 'LOAD/CL'
+                cache_transfers_per_cl['L1']['stores'].unit = 'LOAD/CL'
 
                 # Select appropriate bandwidth
                 mem_bw, mem_bw_kernel = self.machine.get_bandwidth(
@@ -395,17 +402,17 @@ class StandaloneBenchmark(PerformanceModel):
 
                 data_transfers = {
                     # Assuming 0.5 cy / LOAD (SSE on SNB or IVB; AVX on HSW, BDW, SKL or SKX)
-                    'T_nOL': (cache_metric_results['L1']['accesses'] / total_cachelines * 0.5),
-                    'T_L1L2': ((cache_metric_results['L1']['misses'] +
-                                cache_metric_results['L1']['evicts']) /
+                    'T_nOL': (cache_metric_results['L1']['loads'] / total_cachelines * 0.5),
+                    'T_L1L2': ((cache_metric_results['L2']['loads'] +
+                                cache_metric_results['L2']['stores']) /
                                total_cachelines * cl_size /
                                self.machine['memory hierarchy'][1]['upstream throughput'][0]),
-                    'T_L2L3': ((cache_metric_results['L2']['misses'] +
-                                cache_metric_results['L2']['evicts']) /
+                    'T_L2L3': ((cache_metric_results['L3']['loads'] +
+                                cache_metric_results['L3']['stores']) /
                                total_cachelines * cl_size /
                                self.machine['memory hierarchy'][2]['upstream throughput'][0]),
-                    'T_L3MEM': ((cache_metric_results['L3']['misses'] +
-                                 cache_metric_results['L3']['evicts']) *
+                    'T_L3MEM': ((cache_metric_results['MEM']['loads'] +
+                                 cache_metric_results['MEM']['stores']) *
                                 float(self.machine['cacheline size']) /
                                 total_cachelines / mem_bw *
                                 float(self.machine['clock']))
@@ -489,15 +496,14 @@ class StandaloneBenchmark(PerformanceModel):
             if not self.no_phenoecm:
                 print("Data Transfers:")
                 print("{:^8} |".format("cache"), end='')
-                for metrics in self.results[region]['data transfers'].values():
-                    for metric_name in sorted(metrics):
-                        print(" {:^14}".format(metric_name), end='')
-                    print()
-                    break
+                metric_names = ['loads', 'misses', 'stores', 'evicts']
+                for mn in metric_names:
+                    print(" {:^14}".format(mn), end='')
+                print()
                 for cache, metrics in sorted(self.results[region]['data transfers'].items()):
                     print("{!s:^8} |".format(cache), end='')
-                    for k, v in sorted(metrics.items()):
-                        print(" {!s:^14}".format(v), end='')
+                    for mn in metric_names:
+                        print(" {!s:^14}".format(metrics.get(mn, '-')), end='')
                     print()
                 print()
 
-- 
2.43.0


From f3205ce18234f5cbf40468f7d316090091097fd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:32 +0000
Subject: [PATCH 15/31] fix: keep intermediates of different compilers and
 flags apart

Slashes were removed from compiler flags, thus e.g. -DX=1/2 and -DX=12 shared
intermediates, and were used as such from relative paths to compilers.
---
 kerncraft/kernel.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/kerncraft/kernel.py b/kerncraft/kernel.py
index cf8e98a..a6ca622 100755
--- a/kerncraft/kernel.py
+++ b/kerncraft/kernel.py
@@ -20,6 +20,7 @@ import random
 import atexit
 import re
 from contextlib import contextmanager
+from urllib.parse import quote
 import fcntl
 
 from math import floor
@@ -781,7 +782,10 @@ class KernelCode(Kernel):
 
         if machine_and_compiler_dependent:
             compiler, compiler_args = self._machine.get_compiler()
-            compiler_args = '_'.join(compiler_args).replace('/', '')
+            # Escape separators, to not share intermediates between different settings
+            compiler = quote(compiler, safe='+')
+            compiler_args = '_'.join(
+                [quote(a, safe='+,:=@').replace('_', '%5F') for a in compiler_args])
             base_name += '/{}/{}/{}/'.format(
                 self._machine.get_identifier(), compiler, compiler_args)
         
-- 
2.43.0


From a867f5814664e60b039cf6fa350b79a449f0534f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:00 +0000
Subject: [PATCH 16/31] fix: reuse marked assembly with negative pointer
 increments

---
 kerncraft/kernel.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kerncraft/kernel.py b/kerncraft/kernel.py
index a6ca622..666e3f3 100755
--- a/kerncraft/kernel.py
+++ b/kerncraft/kernel.py
@@ -1743,7 +1743,7 @@ class KernelCode(Kernel):
             # use cached maked assembly and extract asm_block and pointer_increment
             with open(marked_filename) as f:
                 marked_asm = f.read()
-            m = re.search(r'pointer_increment=([0-9]+)', marked_asm)
+            m = re.search(r'pointer_increment=(-?[0-9]+)', marked_asm)
             if m:
                 self.pointer_increment = int(m.group(1))
             else:
-- 
2.43.0


From 05ce720924de56ab3b37497e8701d10277f74994 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:26 +0000
Subject: [PATCH 17/31] fix: write machine files as a whole with current
 ruamel.yaml

---
 kerncraft/machinemodel.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/kerncraft/machinemodel.py b/kerncraft/machinemodel.py
index ed21697..556df00 100755
--- a/kerncraft/machinemodel.py
+++ b/kerncraft/machinemodel.py
@@ -19,6 +19,7 @@ import ruamel.yaml
 import cachesim
 from sympy.parsing.sympy_parser import parse_expr
 
+from .picklemerge import replace_file
 from .prefixedunit import PrefixedUnit
 from . import __version__
 
@@ -618,15 +619,20 @@ class MachineModel(object):
         Return YAML string to store machine model and store to f (if path or fp passed).
         """
         yaml = ruamel.yaml.YAML()
-        yaml_string = yaml.dump(self._data)
+        yaml.register_class(PrefixedUnit)
+        stream = io.StringIO()
+        yaml.dump(self._data, stream)
+        yaml_string = stream.getvalue()
         if f is None:
             f = self._path
 
         if isinstance(f, io.IOBase):
             f.write(yaml_string)
         else:
-            with open(f, 'w') as fp:
-                fp.write(yaml_string)
+            # Replace as a whole, to not lose what was written before if interrupted
+            with replace_file(f) as temp_name:
+                with open(temp_name, 'w') as fp:
+                    fp.write(yaml_string)
 
         return yaml_string
 
-- 
2.43.0


From 0f2aebcc4f8fe10a3e8f97803159c6fdc1e8ab97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:26 +0000
Subject: [PATCH 18/31] fix: benchmark machines with verbose output

---
 kerncraft/machinemodel.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kerncraft/machinemodel.py b/kerncraft/machinemodel.py
index 556df00..ee96b81 100755
--- a/kerncraft/machinemodel.py
+++ b/kerncraft/machinemodel.py
@@ -348,7 +348,7 @@ class MachineModel(object):
             # Run actual benchmarks and safe machine file in between
             for mem_level in sorted(list(benchmarks['measurements'].keys())):
                 if verbose > 1:
-                    print('Running for {} with {}kB'.format(mem_level, int(float(total_size) / 1000)), file=sys.stderr)
+                    print('Running for {}'.format(mem_level), file=sys.stderr)
                 for threads_per_core in sorted(list(benchmarks['measurements'][mem_level].keys())):
                     measurement = benchmarks['measurements'][mem_level][threads_per_core]
                     if overwrite or kernel not in measurement['results'] or \
-- 
2.43.0


From a41b48d19e579c114f1470dc58ee51669d0580fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:26 +0000
Subject: [PATCH 19/31] fix: repeat machine benchmarks if sizes have changed

---
 kerncraft/machinemodel.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/kerncraft/machinemodel.py b/kerncraft/machinemodel.py
index ee96b81..1e064ec 100755
--- a/kerncraft/machinemodel.py
+++ b/kerncraft/machinemodel.py
@@ -289,12 +289,17 @@ class MachineModel(object):
                 if threads_per_core in measurement:
                     for k, v in sizes_dict.items():
                         if k in measurement[threads_per_core]:
-                            if v == sizes_dict[k]:
+                            v_measured = measurement[threads_per_core][k]
+                            if v == v_measured:
                                 # Exact compartison matched
                                 continue
-                            for i, j in zip(v, sizes_dict[k]):
+                            if not isinstance(v, list) or len(v) != len(v_measured):
+                                needs_update = True
+                                break
+                            for i, j in zip(v, v_measured):
                                 # Fuzzy comparison with relative error tolerance of 1%
-                                if abs(i - j)/min(i, j) >= 0.01:
+                                i, j = float(i), float(j)
+                                if abs(i - j) >= 0.01*min(i, j):
                                     needs_update = True
                                     break
                         else:
-- 
2.43.0


From 6e44e269b267778b6299bad5ae4220796102e419 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:26 +0000
Subject: [PATCH 20/31] fix: continue incomplete machine files in place

---
 kerncraft/machinemodel.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kerncraft/machinemodel.py b/kerncraft/machinemodel.py
index 1e064ec..f960005 100755
--- a/kerncraft/machinemodel.py
+++ b/kerncraft/machinemodel.py
@@ -901,7 +901,7 @@ def main():
     parser.add_argument('--compare-host', action='store_true',
                         help='Compares machine file (require --machine) with current hosts and '
                               'reports if system differs in a configuration.')
-    parser.add_argument('output_file', metavar='FILE', type=argparse.FileType('w'), default='-',
+    parser.add_argument('output_file', metavar='FILE', type=argparse.FileType('a'), default='-',
                         help='File to save new machine description to.')
 
     parser.set_defaults(readouts=True, memory_hierarchy=True, benchmarks=True, overwrite=True)
-- 
2.43.0


From 65fd4c1e2e9a80055be3a799ce829dc079e72506 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:08 +0000
Subject: [PATCH 21/31] fix: store pointer increments as a whole

---
 kerncraft/incore_model.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/kerncraft/incore_model.py b/kerncraft/incore_model.py
index 80ed27e..d973c8b 100755
--- a/kerncraft/incore_model.py
+++ b/kerncraft/incore_model.py
@@ -23,6 +23,7 @@ from osaca.parser.immediate import ImmediateOperand
 from osaca.parser.identifier import IdentifierOperand
 
 from kerncraft import iaca_get, __version__
+from kerncraft.picklemerge import replace_file
 
 
 def itemsEqual(lst):
@@ -574,8 +575,16 @@ def store_increment_to_cache(
     line = "{} {}".format(hashblock(block), pointer_increment)
     if comment:
         line += " #{}".format(comment)
-    with open(cache_file, "a") as f:
-        f.write(line + "\n")
+    # Replace as a whole, a partial line would be read as another increment
+    with replace_file(cache_file) as temp_name:
+        cache = ""
+        if os.path.exists(cache_file):
+            with open(cache_file) as f:
+                cache = f.read()
+        if cache and not cache.endswith("\n"):
+            cache += "\n"
+        with open(temp_name, "w") as f:
+            f.write(cache + line + "\n")
 
 
 def parse_asm(code, isa, arch=None):
-- 
2.43.0


From b1bcd10353bc87da959c2175e985f2de08b7380f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:03 +0000
Subject: [PATCH 22/31] fix: allow to repeat interrupted installations of IACA

---
 kerncraft/iaca_get.py | 136 +++++++++++++++++++++++++-----------------
 1 file changed, 80 insertions(+), 56 deletions(-)

diff --git a/kerncraft/iaca_get.py b/kerncraft/iaca_get.py
index 155bf67..541e9c2 100755
--- a/kerncraft/iaca_get.py
+++ b/kerncraft/iaca_get.py
@@ -73,55 +73,8 @@ def find_iaca():
                        "".format(search_path()))
 
 
-def main():
-    try:
-        path = find_iaca()
-        print('IACA already installed at', path)
-        if '--force' in sys.argv:
-            sys.argv.remove('--force')
-        else:
-            print('For forced installation add --force')
-            sys.exit()
-    except RuntimeError:
-        pass
-    if len(sys.argv) < 2 or sys.argv[1] != \
-            "--I-accept-the-Intel-What-If-Pre-Release-License-Agreement-and-please-take-my-soul":
-        print("Go to https://software.intel.com/protected-download/267266/157552 and read the"
-              "Intel Pre-Release License Agreement.")
-        print("")
-        print("Add "
-              "--I-accept-the-Intel-What-If-Pre-Release-License-Agreement-and-please-take-my-soul"
-              " for installation of IACA.")
-        sys.exit(1)
-
-    if len(sys.argv) >= 3:
-        assert sys.argv[2] in ['lin64', 'mac']
-        operating_system = sys.argv[2]
-    else:
-        operating_system = get_os()
-
-    # Locate and create IACA base directory, in reverse server order
-    base_dir = None
-    for path in reversed(search_path()):
-        print("Trying " + path + ": ", end='', file=sys.stderr)
-        try:
-            os.makedirs(path)
-            base_dir = path
-            break
-        except PermissionError:
-            # Continue trying with next location
-            print("permission denied.", file=sys.stderr)
-            continue
-        except OSError:
-            # Directory already exists
-            print("already exists.", file=sys.stderr)
-            continue
-    if base_dir is None:
-        print('Aborted.', file=sys.stderr)
-        sys.exit(1)
-    else:
-        print("selected.", file=sys.stderr)
-
+def install(base_dir, operating_system):
+    """Download all versions of IACA and extract them to *base_dir*."""
     print("IACA v2.1 (for manual use - only version analyzing latency):", file=sys.stderr)
     if operating_system == 'mac':
         operating_system_temp = 'mac64'
@@ -157,8 +110,9 @@ def main():
     iaca_sh = iaca_sh.replace('mypath=`pwd`', 'mypath=`dirname $0`', 1)
     iaca_sh = iaca_sh.replace('path=$(cd "$(dirname "$0")"; pwd)',
                               'script=`readlink -f $0`\n\tpath=`dirname "$script"`', 1)
-    open(base_dir + 'v2.1/bin/iaca.sh', 'w').write(iaca_sh)
-    print("IACA v2.1 installed to", os.getcwd() + '/' + base_dir + 'v2.1', file=sys.stderr)
+    with open(base_dir + 'v2.1/bin/iaca.sh', 'w') as f:
+        f.write(iaca_sh)
+    print("IACA v2.1 extracted.", file=sys.stderr)
 
     print("IACA v2.2 (for NHM and WSM support):", file=sys.stderr)
     url = url_dict['v2.2'][operating_system]
@@ -191,8 +145,9 @@ def main():
     iaca_sh = iaca_sh.replace('mypath=`pwd`', 'mypath=`dirname $0`', 1)
     iaca_sh = iaca_sh.replace('path=$(cd "$(dirname "$0")"; pwd)',
                               'script=`readlink -f $0`\n\tpath=`dirname "$script"`', 1)
-    open(base_dir + 'v2.2/bin/iaca.sh', 'w').write(iaca_sh)
-    print("IACA v2.2 installed to", os.getcwd() + '/' + base_dir + 'v2.2', file=sys.stderr)
+    with open(base_dir + 'v2.2/bin/iaca.sh', 'w') as f:
+        f.write(iaca_sh)
+    print("IACA v2.2 extracted.", file=sys.stderr)
 
     print("IACA v2.3 (for SNB and IVY support):", file=sys.stderr)
     url = url_dict['v2.3'][operating_system]
@@ -225,8 +180,9 @@ def main():
     iaca_sh = iaca_sh.replace('mypath=`pwd`', 'mypath=`dirname $0`', 1)
     iaca_sh = iaca_sh.replace('path=$(cd "$(dirname "$0")"; pwd)',
                               'script=`readlink -f $0`\n\tpath=`dirname "$script"`', 1)
-    open(base_dir + 'v2.3/bin/iaca.sh', 'w').write(iaca_sh)
-    print("IACA v2.3 installed to", os.getcwd() + '/' + base_dir + 'v2.3', file=sys.stderr)
+    with open(base_dir + 'v2.3/bin/iaca.sh', 'w') as f:
+        f.write(iaca_sh)
+    print("IACA v2.3 extracted.", file=sys.stderr)
 
     print("IACA v3.0 (for HSW, BDW, SKL and SKX support):", file=sys.stderr)
     url = url_dict['v3.0'][operating_system]
@@ -247,7 +203,7 @@ def main():
         base_dir + 'v3.0/iaca',
         st.st_mode | stat.S_IEXEC | stat.S_IXGRP | stat.S_IXOTH
     )
-    print("IACA v3.0 installed to", os.getcwd() + '/' + base_dir + 'v3.0', file=sys.stderr)
+    print("IACA v3.0 extracted.", file=sys.stderr)
 
     # Create unified bin directory to access both operating_systems
     os.mkdir(base_dir + 'bin')
@@ -255,6 +211,74 @@ def main():
     os.symlink('../v2.2/bin/iaca.sh', base_dir + 'bin/iaca2.2')
     os.symlink('../v2.3/bin/iaca.sh', base_dir + 'bin/iaca2.3')
     os.symlink('../v3.0/iaca', base_dir + 'bin/iaca3.0')
+
+
+def main():
+    locations = list(reversed(search_path()))
+    force = '--force' in sys.argv
+    if force:
+        sys.argv.remove('--force')
+    try:
+        path = find_iaca()
+        print('IACA already installed at', path)
+        if not force:
+            print('For forced installation add --force')
+            sys.exit()
+        # Replace this installation
+        locations = [path[:-len('bin/')]]
+    except RuntimeError:
+        pass
+    if len(sys.argv) < 2 or sys.argv[1] != \
+            "--I-accept-the-Intel-What-If-Pre-Release-License-Agreement-and-please-take-my-soul":
+        print("Go to https://software.intel.com/protected-download/267266/157552 and read the"
+              "Intel Pre-Release License Agreement.")
+        print("")
+        print("Add "
+              "--I-accept-the-Intel-What-If-Pre-Release-License-Agreement-and-please-take-my-soul"
+              " for installation of IACA.")
+        sys.exit(1)
+
+    if len(sys.argv) >= 3:
+        assert sys.argv[2] in ['lin64', 'mac']
+        operating_system = sys.argv[2]
+    else:
+        operating_system = get_os()
+
+    # Locate IACA base directory, in reverse server order
+    base_dir = None
+    for path in locations:
+        print("Trying " + path + ": ", end='', file=sys.stderr)
+        if os.path.exists(path) and not force:
+            print("already exists.", file=sys.stderr)
+            continue
+        try:
+            parent_dir = os.path.dirname(path.rstrip('/'))
+            os.makedirs(parent_dir, exist_ok=True)
+            build_dir = tempfile.mkdtemp(dir=parent_dir)
+            base_dir = path
+            break
+        except PermissionError:
+            # Continue trying with next location
+            print("permission denied.", file=sys.stderr)
+            continue
+        except OSError:
+            print("could not be created.", file=sys.stderr)
+            continue
+    if base_dir is None:
+        print('Aborted.', file=sys.stderr)
+        sys.exit(1)
+    else:
+        print("selected.", file=sys.stderr)
+
+    try:
+        # Only a complete installation gets its final name, to allow for repetition if interrupted
+        install(build_dir + '/new/', operating_system)
+        if os.path.exists(base_dir):
+            os.rename(base_dir, build_dir + '/old')
+        os.rename(build_dir + '/new', base_dir)
+    finally:
+        shutil.rmtree(build_dir, ignore_errors=True)
+    print("IACA installed to", base_dir, file=sys.stderr)
     print('export PATH=' + base_dir + 'bin/:$PATH')
 
 
-- 
2.43.0


From b7cdffceeb663c3144ae293d8806df02d093ce1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:25 +0000
Subject: [PATCH 23/31] fix: simulate accesses in a reproducible order

---
 kerncraft/kernel.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/kerncraft/kernel.py b/kerncraft/kernel.py
index 666e3f3..a849c3f 100755
--- a/kerncraft/kernel.py
+++ b/kerncraft/kernel.py
@@ -587,10 +587,11 @@ class Kernel(object):
             array_total_size = ((int(array_total_size) + cacheline_size - 1) & ~(cacheline_size - 1))
             base += array_total_size
 
-        # Gather all read and write accesses to the array:
+        # Gather all read and write accesses to the array (always in the same order, for
+        # reproducibility):
         for var_name, var_size in var_sizes.items():
             element_size = self.datatypes_size[self.variables[var_name][0]]
-            for r in self.sources.get(var_name, []):
+            for r in sorted(self.sources.get(var_name, []), key=str):
                 offset_expr = self.access_to_sympy(var_name, r)
                 # Ignore accesses that always go to the same location (constant offsets)
                 if not any([s in base_loop_counters.keys() for s in offset_expr.free_symbols]):
@@ -603,7 +604,7 @@ class Kernel(object):
                     'numpy'))
                 # TODO possibly differentiate between index order
                 global_load_offsets.append(offset)
-            for w in self.destinations.get(var_name, []):
+            for w in sorted(self.destinations.get(var_name, []), key=str):
                 offset_expr = self.access_to_sympy(var_name, w)
                 # Ignore accesses that always go to the same location (constant offsets)
                 if not any([s in base_loop_counters.keys() for s in offset_expr.free_symbols]):
-- 
2.43.0


From f8e417cbb0ae9da96a154db5fb5a71191a281594 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:44 +0000
Subject: [PATCH 24/31] fix: order of the constants defined by -D .

---
 kerncraft/kerncraft.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kerncraft/kerncraft.py b/kerncraft/kerncraft.py
index 84890b9..4a25581 100755
--- a/kerncraft/kerncraft.py
+++ b/kerncraft/kerncraft.py
@@ -352,7 +352,7 @@ def run(parser, args, output_file=sys.stdout):
         # Prefill with default value, if any is given
         if '.' in [n for n,v in args.define]:
             default_const_values = dict(args.define)['.']
-            for name in required_consts:
+            for name in sorted(required_consts, key=str):
                 name = str(name)
                 define_dict[str(name)] = [[str(name), v] for v in default_const_values]
         for name, values in args.define:
-- 
2.43.0


From 592c0dbf731260be1bd3c3cf5dd885bfa57d6aea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:44 +0000
Subject: [PATCH 25/31] fix: do not share main code between machines with
 different cachelines

---
 kerncraft/kernel.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/kerncraft/kernel.py b/kerncraft/kernel.py
index a849c3f..eced250 100755
--- a/kerncraft/kernel.py
+++ b/kerncraft/kernel.py
@@ -1549,7 +1549,10 @@ class KernelCode(Kernel):
         assert self.kernel_ast is not None, "AST does not exist, this could be due to running " \
                                             "based on a kernel description rather than code."
 
-        file_path = self.get_intermediate_location('main.c', machine_and_compiler_dependent=False)
+        # arrays are aligned to cachelines of the machine
+        file_path = self.get_intermediate_location(
+            'main-{}.c'.format(int(self._machine['cacheline size'])),
+            machine_and_compiler_dependent=False)
         lock_mode, lock_fp = self.lock_intermediate(file_path)
 
         if lock_mode == fcntl.LOCK_SH:
-- 
2.43.0


From 580c92daa39b9bd23a3b1d30304b78e9113e49a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:23 +0000
Subject: [PATCH 26/31] fix: keep permissions and symbolic links of result
 files

---
 kerncraft/picklemerge.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/kerncraft/picklemerge.py b/kerncraft/picklemerge.py
index b16701e..af65a3f 100755
--- a/kerncraft/picklemerge.py
+++ b/kerncraft/picklemerge.py
@@ -6,6 +6,7 @@ from contextlib import contextmanager
 import fcntl
 import os
 import pickle
+import shutil
 import sys
 
 
@@ -30,8 +31,13 @@ def replace_file(file_name):
     Context manager to replace *file_name* as a whole.
 
     Yields path to write new content to, which is moved to *file_name* on success. Replacements of
-    files in the same directory are serialized.
+    files in the same directory are serialized. Symbolic links are followed and permissions kept.
     """
+    if os.path.exists(file_name) and not os.path.isfile(file_name):
+        # Devices and pipes (e.g., /dev/stdout) must not be replaced
+        yield file_name
+        return
+    file_name = os.path.realpath(file_name)
     # The directory is locked, because the file itself gets replaced
     lock_fd = os.open(os.path.dirname(os.path.abspath(file_name)), os.O_RDONLY)
     try:
@@ -43,6 +49,8 @@ def replace_file(file_name):
                   file=sys.stderr)
         temp_name = file_name + '.tmp'
         yield temp_name
+        if os.path.exists(file_name):
+            shutil.copymode(file_name, temp_name)
         os.replace(temp_name, file_name)
     finally:
         os.close(lock_fd)
-- 
2.43.0


From 996c017d287aa1e526148e92122d7ed1d7c57b90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:48 +0000
Subject: [PATCH 27/31] fix: let the user choose block and increment in every
 run if asked for

---
 kerncraft/kernel.py | 27 +++++++++++++++++++++++++--
 1 file changed, 25 insertions(+), 2 deletions(-)

diff --git a/kerncraft/kernel.py b/kerncraft/kernel.py
index eced250..f070ac8 100755
--- a/kerncraft/kernel.py
+++ b/kerncraft/kernel.py
@@ -749,6 +749,7 @@ class KernelCode(Kernel):
         self.kernel_code = kernel_code
         self._filename = filename
         self._keep_intermediates = keep_intermediates
+        self._manual_analyses = {}
         parser = CParser()
         try:
             self.kernel_ast = parser.parse(self._strip_comments(self._as_function()),
@@ -801,6 +802,12 @@ class KernelCode(Kernel):
 
         return reduce_path(file_path)
 
+    def acquire_exclusive_lock(self, lock_fd):
+        """Replace shared lock, to update an intermediate although it is up-to-date."""
+        fcntl.flock(lock_fd, fcntl.LOCK_UN)
+        fcntl.flock(lock_fd, fcntl.LOCK_EX)
+        return fcntl.LOCK_EX
+
     def _check_freshness(self, file_path):
         """Return True, if file_path exists and file is up-to-date."""
         if os.path.exists(file_path):
@@ -1607,7 +1614,7 @@ class KernelCode(Kernel):
         return file_path, lock_fp
 
 
-    def assemble_to_object(self, in_filename, verbose=False):
+    def assemble_to_object(self, in_filename, verbose=False, force_update=False):
         """
         Assemble *in_filename* assembly into *out_filename* object.
 
@@ -1618,6 +1625,8 @@ class KernelCode(Kernel):
         # Build file name
         out_filename = os.path.splitext(in_filename)[0] + '.o'
         lock_mode, lock_fp = self.lock_intermediate(out_filename)
+        if force_update and lock_mode == fcntl.LOCK_SH:
+            lock_mode = self.acquire_exclusive_lock(lock_fp)
 
         if lock_mode == fcntl.LOCK_SH:
             # use cached version
@@ -1731,9 +1740,18 @@ class KernelCode(Kernel):
         model = self._machine.get_incore_model(model)
         model_parameter = self._machine['in-core model'][model]
 
+        # Choices made by the user in earlier runs must not be reused
+        manual = 'manual' in (asm_block, pointer_increment)
+        selection = (model, asm_block, pointer_increment)
+        if selection in self._manual_analyses:
+            analysis, self.pointer_increment = deepcopy(self._manual_analyses[selection])
+            return analysis, self.pointer_increment
+
         analysis_filename = self.get_intermediate_location('incore_analysis.pickle.lzma',
             other_dependencies=[model, str(model_parameter), asm_block, pointer_increment])
         analysis_lock_mode, analysis_lock_fp = self.lock_intermediate(analysis_filename)
+        if manual and analysis_lock_mode == fcntl.LOCK_SH:
+            analysis_lock_mode = self.acquire_exclusive_lock(analysis_lock_fp)
         if analysis_lock_mode == fcntl.LOCK_SH:
             # use cached analysis
             analysis, self.pointer_increment = compress_pickle.load(analysis_filename)
@@ -1743,6 +1761,8 @@ class KernelCode(Kernel):
         marked_filename = self.get_intermediate_location('kernel-marked.s',
             other_dependencies=[asm_block, pointer_increment])
         lock_mode, marked_lock_fp = self.lock_intermediate(marked_filename)
+        if manual and lock_mode == fcntl.LOCK_SH:
+            lock_mode = self.acquire_exclusive_lock(marked_lock_fp)
         if lock_mode == fcntl.LOCK_SH:
             # use cached maked assembly and extract asm_block and pointer_increment
             with open(marked_filename) as f:
@@ -1775,7 +1795,8 @@ class KernelCode(Kernel):
             analysis = incore_model.llvm_mca_analyse_instrumented_assembly(
                 marked_filename, model_parameter, isa=self._machine['isa'])
         elif model == 'IACA':
-            obj_name, obj_lock_fp = self.assemble_to_object(marked_filename, verbose=verbose)
+            obj_name, obj_lock_fp = self.assemble_to_object(
+                marked_filename, verbose=verbose, force_update=manual)
             analysis = incore_model.iaca_analyse_instrumented_binary(obj_name, model_parameter)
             obj_lock_fp.close()
         else:
@@ -1784,6 +1805,8 @@ class KernelCode(Kernel):
             compress_pickle.dump((analysis, self.pointer_increment), temp_filename)
         analysis_lock_fp.close()
         marked_lock_fp.close()
+        if manual:
+            self._manual_analyses[selection] = analysis, self.pointer_increment
         return analysis, self.pointer_increment
 
     def build_executable(self, lflags=None, verbose=False, openmp=False):
-- 
2.43.0


From 50162560112918aa00fe4f75afa432ce5e7c38ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:29 +0000
Subject: [PATCH 28/31] fix: do not remove intermediates other runs are using

---
 kerncraft/kernel.py | 42 +++++++++++++++++++++++++++++++++++++++++-
 1 file changed, 41 insertions(+), 1 deletion(-)

diff --git a/kerncraft/kernel.py b/kerncraft/kernel.py
index f070ac8..ca37bc8 100755
--- a/kerncraft/kernel.py
+++ b/kerncraft/kernel.py
@@ -731,6 +731,9 @@ class KernelCode(Kernel):
     This version allows compilation and generation of code for iaca and likwid benchmarking
     """
 
+    # Kernel files with intermediates used by this process: path -> file pointer with shared lock
+    _files_in_use = {}
+
     def __init__(self, kernel_code, machine, filename=None, keep_intermediates=True):
         """
         Create kernel representation from source code str and machine object.
@@ -778,9 +781,11 @@ class KernelCode(Kernel):
         else:
             base_name = tempfile.mkdtemp()
 
+        in_use_fp = self._announce_use()
+
         if not self._keep_intermediates:
             # Remove directory and all content up on program exit
-            atexit.register(shutil.rmtree, base_name, ignore_errors=True)
+            atexit.register(self._remove_intermediates, base_name, in_use_fp)
 
         if machine_and_compiler_dependent:
             compiler, compiler_args = self._machine.get_compiler()
@@ -802,6 +807,41 @@ class KernelCode(Kernel):
 
         return reduce_path(file_path)
 
+    def _announce_use(self):
+        """
+        Keep others from removing intermediates of this kernel, until this process ends.
+
+        :return: file pointer of kernel file with shared lock, or None if there is no kernel file
+        """
+        if not self._filename:
+            return None
+        path = os.path.abspath(self._filename)
+        if path not in self._files_in_use:
+            try:
+                fp = open(path, 'rb')
+            except FileNotFoundError:
+                return None
+            try:
+                fcntl.flock(fp, fcntl.LOCK_SH)
+            except OSError:
+                # locking does not work on this filesystem, lock_intermediate will warn about it
+                pass
+            self._files_in_use[path] = fp
+        return self._files_in_use[path]
+
+    @staticmethod
+    def _remove_intermediates(base_name, in_use_fp):
+        """Remove directory of intermediates, unless another process makes use of it."""
+        if in_use_fp is not None:
+            try:
+                fcntl.flock(in_use_fp, fcntl.LOCK_EX | fcntl.LOCK_NB)
+            except BlockingIOError:
+                return
+            except OSError:
+                # locking does not work on this filesystem
+                pass
+        shutil.rmtree(base_name, ignore_errors=True)
+
     def acquire_exclusive_lock(self, lock_fd):
         """Replace shared lock, to update an intermediate although it is up-to-date."""
         fcntl.flock(lock_fd, fcntl.LOCK_UN)
-- 
2.43.0


From 599916d36e6685666c202bcf2a829cafc712985b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:40 +0000
Subject: [PATCH 29/31] fix: analyse constants only once if they are given
 repeatedly

The test for duplicates compared numbers with pairs of name and number, so
values given by two -D options were analysed and reported twice.
---
 kerncraft/kerncraft.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/kerncraft/kerncraft.py b/kerncraft/kerncraft.py
index 4a25581..7fa32ea 100755
--- a/kerncraft/kerncraft.py
+++ b/kerncraft/kerncraft.py
@@ -351,7 +351,7 @@ def run(parser, args, output_file=sys.stdout):
         args.define.sort()
         # Prefill with default value, if any is given
         if '.' in [n for n,v in args.define]:
-            default_const_values = dict(args.define)['.']
+            default_const_values = uniquify(dict(args.define)['.'])
             for name in sorted(required_consts, key=str):
                 name = str(name)
                 define_dict[str(name)] = [[str(name), v] for v in default_const_values]
@@ -359,12 +359,10 @@ def run(parser, args, output_file=sys.stdout):
             if name not in [str(n) for n in required_consts]:
                 # ignore
                 continue
-            if name not in define_dict:
-                define_dict[name] = [[name, v] for v in values]
-                continue
+            define_values = define_dict.setdefault(name, [])
             for v in values:
-                if v not in define_dict[name]:
-                    define_dict[name].append([name, v])
+                if [name, v] not in define_values:
+                    define_values.append([name, v])
         define_product = list(itertools.product(*list(define_dict.values())))
         # Check that all consts have been defined
         if set(required_consts).difference(set([symbol_pos_int(k) for k in define_dict.keys()])):
-- 
2.43.0


From 894a55b25d5ac4b1066632ad8e2b22b24a63552a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:40 +0000
Subject: [PATCH 30/31] fix: find the marked section for LLVM-MCA with OSACA
 0.7

OSACA knows no architecture named like LLVM-MCA's options and expects a parser
to find the markers; every analysis with LLVM-MCA ended with an error.
---
 kerncraft/incore_model.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/kerncraft/incore_model.py b/kerncraft/incore_model.py
index d973c8b..c3bdadb 100755
--- a/kerncraft/incore_model.py
+++ b/kerncraft/incore_model.py
@@ -820,9 +820,11 @@ def llvm_mca_analyse_instrumented_assembly(
         - 'uops': total number of Uops
     """
     result = {}
+    # OSACA is only used to find the marked section and can not make use of LLVM-MCA's options
+    parser = osaca.get_asm_parser("csx" if isa == "x86" else "a64fx")
     with open(instrumented_assembly_file) as f:
-        parsed_code = parse_asm(f.read(), isa, micro_architecture)
-    kernel = osaca.reduce_to_section(parsed_code, isa)
+        parsed_code = parser.parse_file(f.read())
+    kernel = osaca.reduce_to_section(parsed_code, parser)
     assembly_section = "\n".join([l.line for l in kernel])
 
     output = subprocess.check_output(
-- 
2.43.0


From d228002a5ef062a03fa834b2035259f1bb56cf39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:40 +0000
Subject: [PATCH 31/31] fix: select blocks of assembly by number

OSACA names blocks by their label, so that --asm-block with a number always
ended with a KeyError.
---
 kerncraft/incore_model.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/kerncraft/incore_model.py b/kerncraft/incore_model.py
index c3bdadb..c58c0fe 100755
--- a/kerncraft/incore_model.py
+++ b/kerncraft/incore_model.py
@@ -669,7 +669,11 @@ def asm_instrumentation(
             loop_blocks, default=ISA.get_isa(isa).select_best_block(loop_blocks), debug=debug
         )
     elif isinstance(block_selection, int):
-        block_label = block_selection
+        # number of the block, counted from zero
+        if not 0 <= block_selection < len(loop_blocks):
+            raise ValueError("there is no block number {}, {} blocks were found".format(
+                block_selection, len(loop_blocks)))
+        block_label = list(loop_blocks)[block_selection]
     else:
         raise ValueError("block_selection has to be an integer, 'auto' or 'manual' ")
     block_lines = loop_blocks[block_label]
-- 
2.43.0

