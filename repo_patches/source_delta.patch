From 62f5e4b5310f324b1dff93523e3530eb4402914e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:02:01 +0000
Subject: [PATCH 01/25] fix: comparing segmentations in which nobody placed a
 boundary

---
 segeval/similarity/distance/__init__.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/segeval/similarity/distance/__init__.py b/segeval/similarity/distance/__init__.py
index e85f478..3b589d7 100644
--- a/segeval/similarity/distance/__init__.py
+++ b/segeval/similarity/distance/__init__.py
@@ -15,4 +15,7 @@ def identify_types(string_a, string_b):
         for position in string:
             for boundary_type in position:
                 boundary_types.add(boundary_type)
+    # Segmentations without boundaries have the default boundary type
+    if not boundary_types:
+        boundary_types.add(1)
     return frozenset(boundary_types)
-- 
2.43.0


From 05f70f0a2b4ee42fee5d6f50b76e044b4d6e6e2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:02:04 +0000
Subject: [PATCH 02/25] fix: exact decimal B and S (and one_minus) with
 unscaled weights

---
 segeval/similarity/boundary.py     | 2 +-
 segeval/similarity/segmentation.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/segeval/similarity/boundary.py b/segeval/similarity/boundary.py
index 9d7b4ef..207eee7 100644
--- a/segeval/similarity/boundary.py
+++ b/segeval/similarity/boundary.py
@@ -29,7 +29,7 @@ def __boundary_similarity__(*args, **kwargs):
     if return_parts:
         return numerator, denominator, additions, substitutions, transpositions
     else:
-        value = numerator / denominator if denominator > 0 else 1
+        value = Decimal(numerator) / denominator if denominator > 0 else 1
         if one_minus:
             return Decimal('1') - value
         else:
diff --git a/segeval/similarity/segmentation.py b/segeval/similarity/segmentation.py
index b68a23a..298fa8d 100644
--- a/segeval/similarity/segmentation.py
+++ b/segeval/similarity/segmentation.py
@@ -30,7 +30,7 @@ def __segmentation_similarity__(*args, **kwargs):
     if return_parts:
         return numerator, denominator
     else:
-        value = numerator / denominator if denominator > 0 else 1
+        value = Decimal(numerator) / denominator if denominator > 0 else 1
         if one_minus:
             return Decimal('1') - value
         else:
-- 
2.43.0


From 449ba006c95e161862d581f6c5ef10c8eaebccb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:02:07 +0000
Subject: [PATCH 03/25] fix: S counted potential boundaries once too often per
 boundary type

---
 segeval/similarity/segmentation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/segeval/similarity/segmentation.py b/segeval/similarity/segmentation.py
index 298fa8d..8dbe6ee 100644
--- a/segeval/similarity/segmentation.py
+++ b/segeval/similarity/segmentation.py
@@ -23,7 +23,7 @@ def __segmentation_similarity__(*args, **kwargs):
     # Compute
     statistics = __boundary_statistics__(*args, **metric_kwargs)
     # Process
-    pbs = statistics['pbs'] * len(statistics['boundary_types'])
+    pbs = statistics['pbs']
     # Fraction
     denominator = pbs
     numerator = pbs - statistics['count_edits']
-- 
2.43.0


From 4e5de9cf979c9d4796194026f462af960d54a438 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:02:09 +0000
Subject: [PATCH 04/25] fix: WindowDiff of segmentations that no window fits
 into

---
 segeval/window/windowdiff.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/segeval/window/windowdiff.py b/segeval/window/windowdiff.py
index 35f8195..76f5629 100644
--- a/segeval/window/windowdiff.py
+++ b/segeval/window/windowdiff.py
@@ -125,7 +125,7 @@ length (%(ref)i is not %(hyp)i).' % {'ref': len(reference),
     denominator = n - window_size
     if lamprier_et_al_2007_fix:
         denominator = measurements + 1
-    win_diff = Decimal(sum_differences) / denominator
+    win_diff = Decimal(sum_differences) / denominator if denominator > 0 else Decimal(0)
     # Check normalization
     assert denominator == measurements or lamprier_et_al_2007_fix
     # Check value
-- 
2.43.0


From 06df0b26e40adcb0311d3e2940119ab45a5f7395 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:02:12 +0000
Subject: [PATCH 05/25] fix: WindowDiff padding for position lists and for
 segments labelled 0

---
 segeval/window/windowdiff.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/segeval/window/windowdiff.py b/segeval/window/windowdiff.py
index 76f5629..73f5aee 100644
--- a/segeval/window/windowdiff.py
+++ b/segeval/window/windowdiff.py
@@ -32,9 +32,10 @@ def __create_paired_window__(hypothesis, reference, window_size,
     else:
         phantom_size = window_size
         phantom_size = 1 if phantom_size <= 0 else phantom_size
-        phantom = tuple([0] * phantom_size)
-        units_ref_hyp = zip(phantom + reference + phantom,
-                            phantom + hypothesis + phantom)
+        # A label that differs from the label of any segment
+        phantom = (object(),) * phantom_size
+        units_ref_hyp = zip(phantom + tuple(reference) + phantom,
+                            phantom + tuple(hypothesis) + phantom)
     return list(units_ref_hyp), phantom_size
 
 
-- 
2.43.0


From 317ee68e4b127cddfff703558ab8a07900d906e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:02:14 +0000
Subject: [PATCH 06/25] fix: window metrics compared segment labels and counts
 by identity

---
 segeval/window/pk.py         | 4 ++--
 segeval/window/windowdiff.py | 8 ++++----
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/segeval/window/pk.py b/segeval/window/pk.py
index d5d0ca5..d19539d 100644
--- a/segeval/window/pk.py
+++ b/segeval/window/pk.py
@@ -46,8 +46,8 @@ def __pk__(hypothesis, reference, window_size, one_minus, boundary_format,
         window_ref = reference[i:i + window_size + 1]
         window_hyp = hypothesis[i:i + window_size + 1]
         # Probe agreement
-        agree_ref = window_ref[0] is window_ref[-1]
-        agree_hyp = window_hyp[0] is window_hyp[-1]
+        agree_ref = window_ref[0] == window_ref[-1]
+        agree_hyp = window_hyp[0] == window_hyp[-1]
         # If the windows agreements agree
         if agree_ref is not agree_hyp:
             sum_differences += 1
diff --git a/segeval/window/windowdiff.py b/segeval/window/windowdiff.py
index 73f5aee..42de95a 100644
--- a/segeval/window/windowdiff.py
+++ b/segeval/window/windowdiff.py
@@ -108,18 +108,18 @@ length (%(ref)i is not %(hyp)i).' % {'ref': len(reference),
         ref_boundaries = 0
         hyp_boundaries = 0
         # Check that the number of loops is correct
-        assert len(window) is window_size + 1
+        assert len(window) == window_size + 1
         # For pair in window
         for j in range(0, len(window) - 1):
             ref_part, hyp_part = zip(*window[j:j + 2])
             # Boundary exists in the reference segmentation
-            if ref_part[0] is not ref_part[1]:
+            if ref_part[0] != ref_part[1]:
                 ref_boundaries += 1
             # Boundary exists in the hypothesis segmentation
-            if hyp_part[0] is not hyp_part[1]:
+            if hyp_part[0] != hyp_part[1]:
                 hyp_boundaries += 1
         # If the number of boundaries per segmentation in the window differs
-        if ref_boundaries is not hyp_boundaries:
+        if ref_boundaries != hyp_boundaries:
             sum_differences += 1
     # Perform final division
     n = sum(convert_positions_to_masses(reference))
-- 
2.43.0


From 55b88c2011a5e90bb84ab20b833fc2805b8df793 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:02:17 +0000
Subject: [PATCH 07/25] fix: WindowDiff ignored return_parts when given
 one_minus

---
 segeval/window/windowdiff.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/segeval/window/windowdiff.py b/segeval/window/windowdiff.py
index 42de95a..fc9707d 100644
--- a/segeval/window/windowdiff.py
+++ b/segeval/window/windowdiff.py
@@ -131,13 +131,12 @@ length (%(ref)i is not %(hyp)i).' % {'ref': len(reference),
     assert denominator == measurements or lamprier_et_al_2007_fix
     # Check value
     assert win_diff <= 1
-    if not one_minus:
-        if return_parts:
-            return sum_differences, denominator
-        else:
-            return win_diff
-    else:
+    if return_parts:
+        return sum_differences, denominator
+    elif one_minus:
         return Decimal('1.0') - win_diff
+    else:
+        return win_diff
 
 
 def window_diff(*args, **kwargs):
-- 
2.43.0


From 78b2eb1ebbff6fd5f4519e25b0d88099f0b1e0f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:02:53 +0000
Subject: [PATCH 08/25] fix: exact decimal actual agreement with unscaled
 weights

---
 segeval/agreement/__init__.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/segeval/agreement/__init__.py b/segeval/agreement/__init__.py
index e120173..bedb3b6 100644
--- a/segeval/agreement/__init__.py
+++ b/segeval/agreement/__init__.py
@@ -4,6 +4,7 @@ Inter-coder agreement statistics.
 .. moduleauthor:: Chris Fournier <chris.m.fournier@gmail.com>
 '''
 from __future__ import absolute_import, division
+from decimal import Decimal
 from segeval.data import get_coders
 from segeval.similarity import SIMILARITY_METRIC_DEFAULTS
 from segeval.similarity.boundary import boundary_similarity
@@ -172,7 +173,7 @@ def __actual_agreement_linear__(dataset, **kwargs):
     if return_parts:
         return all_numerators, all_denominators, all_pbs, coders_boundaries
     else:
-        return sum(all_numerators) / sum(all_denominators)
+        return Decimal(sum(all_numerators)) / sum(all_denominators)
 
 
 def actual_agreement_linear(dataset, **kwargs):
-- 
2.43.0


From f261890c8f1169b236afd8bcbee4df5d4740dce7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:02:55 +0000
Subject: [PATCH 09/25] fix: summarize (and segeval.compute) could not be
 accessed first

---
 segeval/util/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/segeval/util/__init__.py b/segeval/util/__init__.py
index 12efe7d..4fe260b 100644
--- a/segeval/util/__init__.py
+++ b/segeval/util/__init__.py
@@ -4,7 +4,6 @@ Utility functions and classes for the package.
 .. moduleauthor:: Chris Fournier <chris.m.fournier@gmail.com>
 '''
 from __future__ import absolute_import
-from segeval.compute import compute_pairwise_values
 
 
 class SegmentationMetricError(Exception):
@@ -30,6 +29,7 @@ class SegmentationMetricError(Exception):
 
 def __fnc_metric__(fnc_metric, args, kwargs, kw_defaults):
 
+    from segeval.compute import compute_pairwise_values
     from segeval.data import Dataset
     # Create default keyword arguments
     metric_kwargs = dict(kw_defaults)
-- 
2.43.0


From 58ee5ee9dec263be07afac0bccbe1027ac8ce982 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:02:58 +0000
Subject: [PATCH 10/25] fix: datasets loaded from JSON or TSV files knew no
 coders

---
 segeval/data/jsonutils.py | 1 +
 segeval/data/tsv.py       | 1 +
 2 files changed, 2 insertions(+)

diff --git a/segeval/data/jsonutils.py b/segeval/data/jsonutils.py
index 3d79b0c..d5b5787 100644
--- a/segeval/data/jsonutils.py
+++ b/segeval/data/jsonutils.py
@@ -84,6 +84,7 @@ def input_linear_mass_json(filepath):
             dataset[item] = dict()
             for coder, masses in coder_masses.items():
                 dataset[item][coder] = tuple(masses)
+                dataset.coders.add(coder)
         # Remove from properties
         del dataset.properties[Field.items]
     else:
diff --git a/segeval/data/tsv.py b/segeval/data/tsv.py
index 5ebdcaf..30d188d 100644
--- a/segeval/data/tsv.py
+++ b/segeval/data/tsv.py
@@ -48,6 +48,7 @@ def input_linear_mass_tsv(filepath, delimiter=DEFAULT_DELIMITER):
                     else:
                         dataset[item][coder].append(int(col))
                 dataset[item][coder] = tuple(dataset[item][coder])
+                dataset.coders.add(coder)
 
     return dataset
 
-- 
2.43.0


From 73093eebf78641ffbe5de422db2535c8e411d5d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:03:01 +0000
Subject: [PATCH 11/25] fix: agreement used the coders of a dataset as
 constructed, not as filled

---
 segeval/data/__init__.py | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/segeval/data/__init__.py b/segeval/data/__init__.py
index 65b8ec1..9aa164f 100644
--- a/segeval/data/__init__.py
+++ b/segeval/data/__init__.py
@@ -100,13 +100,11 @@ class Dataset(defaultdict):
 
 
 def get_coders(container):
-    if isinstance(container, Dataset):
-        return container.coders
-    else:
-        coders = set()
-        for value in container.values():
-            coders = coders.union(value.keys())
-        return coders
+    # Not Dataset.coders, which codings assigned or deleted directly bypass
+    coders = set()
+    for value in container.values():
+        coders = coders.union(value.keys())
+    return coders
 
 
 def name_from_filepath(filepath):
-- 
2.43.0


From 251f04070562fdcb6ba6f498e38d88a95fd7d035 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:03:05 +0000
Subject: [PATCH 12/25] fix: JSON files were left open after loading

---
 segeval/data/jsonutils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/segeval/data/jsonutils.py b/segeval/data/jsonutils.py
index d5b5787..4e455c0 100644
--- a/segeval/data/jsonutils.py
+++ b/segeval/data/jsonutils.py
@@ -62,7 +62,8 @@ def input_linear_mass_json(filepath):
     json_file = open(filepath, 'rU')
     # Read in file
     try:
-        data = json.load(json_file)
+        with json_file:
+            data = json.load(json_file)
     except Exception as exception:
         raise DataIOError(
             'Error occurred processing file: ' + filepath, exception)
-- 
2.43.0


From be2ec3f6e3885835ad42f4a8d32ee4b1b5475b13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:03:08 +0000
Subject: [PATCH 13/25] fix: blank line at the end of a TSV file raised a
 KeyError

---
 segeval/data/tsv.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/segeval/data/tsv.py b/segeval/data/tsv.py
index 30d188d..a7cca2a 100644
--- a/segeval/data/tsv.py
+++ b/segeval/data/tsv.py
@@ -37,8 +37,8 @@ def input_linear_mass_tsv(filepath, delimiter=DEFAULT_DELIMITER):
             if i is 0:
                 for col_name in row[1:]:
                     header.append(col_name)
-            # Read data
-            else:
+            # Read data, except from blank lines
+            elif row:
                 coder = None
                 for j, col in enumerate(row):
                     # Skip the first col
-- 
2.43.0


From 35d9dbdaff4b3c5c17dc8efc1db336c976d2e8e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:03:11 +0000
Subject: [PATCH 14/25] fix: folder loading dropped one of two files differing
 in extension only

---
 segeval/data/__init__.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/segeval/data/__init__.py b/segeval/data/__init__.py
index 9aa164f..3b1b716 100644
--- a/segeval/data/__init__.py
+++ b/segeval/data/__init__.py
@@ -156,7 +156,7 @@ def load_nested_folders_dict(containing_dir, filetype, dataset=None,
     fnc_load = FILETYPES[filetype][FNC]
     datafile_found = False
     # List of entries
-    files = dict()
+    files = list()
     dirs = dict()
     # For each filesystem item
     for name in os.listdir(containing_dir):
@@ -168,12 +168,12 @@ def load_nested_folders_dict(containing_dir, filetype, dataset=None,
         else:
             name, ext = os.path.splitext(name)
             if len(ext) > 0 and ext.lower() in allowable_extensions:
-                files[name] = path
+                files.append(path)
                 datafile_found = True
     # If a data file was found
     if datafile_found:
         # If TSV files were found, load
-        for name, filepath in files.items():
+        for filepath in files:
             other = fnc_load(filepath)
             dataset.__iadd__(other, prepend_item=prepend_item)
     # If only dirs were found, recurse
-- 
2.43.0


From ed090f0d4ca6ac65fbad68cd15abb107a096d26a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:03:13 +0000
Subject: [PATCH 15/25] fix: adding to a dataset changed the data it was
 constructed from

---
 segeval/data/__init__.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/segeval/data/__init__.py b/segeval/data/__init__.py
index 3b1b716..1349f3b 100644
--- a/segeval/data/__init__.py
+++ b/segeval/data/__init__.py
@@ -40,7 +40,8 @@ class Dataset(defaultdict):
         self.boundary_format = boundary_format
         # Masses
         if item_coder_data is not None and item_coder_data is not dict:
-            defaultdict.update(self, item_coder_data)
+            for item, codings in item_coder_data.items():
+                self[item] = dict(codings)
         # Properties
         if properties is not None:
             self.properties.update(properties)
-- 
2.43.0


From a3d6a5157772636d081a0bf89805a6fb93f2cbac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:03:16 +0000
Subject: [PATCH 16/25] fix: a rejected addition of datasets left the dataset
 partially merged

---
 segeval/data/__init__.py | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/segeval/data/__init__.py b/segeval/data/__init__.py
index 1349f3b..6e9f62b 100644
--- a/segeval/data/__init__.py
+++ b/segeval/data/__init__.py
@@ -61,23 +61,29 @@ class Dataset(defaultdict):
         '''
         Add one dataset's data to this dataset.
         '''
-        # Combine item codings
+        # Label items
+        new_codings = list()
         for item, codings in other.items():
             if prepend_item is not None:
                 item_parts = list()
                 item_parts.extend(prepend_item)
                 item_parts.append(item)
                 item = ','.join(item_parts)
+            new_codings.append((item, codings))
+        # Check all codings before adding any
+        for item, codings in new_codings:
+            for coder in codings.keys():
+                if item in self and coder in self[item]:
+                    raise DataIOError('Duplicate coders of same name \
+%(coder)s found for item %(item)s' % {'coder': coder, 'item': item})
+        # Combine item codings
+        for item, codings in new_codings:
             if item not in self:
                 self[item] = dict()
             # For each coder, add ttheir coding
             for coder, item_masses in codings.items():
                 self.coders.add(coder)
-                if coder not in self[item]:
-                    self[item][coder] = item_masses
-                else:
-                    raise DataIOError('Duplicate coders of same name \
-%(coder)s found for item %(item)s' % {'coder': coder, 'item': item})
+                self[item][coder] = item_masses
         return self
 
     def __add__(self, other):
-- 
2.43.0


From 52423f38821d04ab89e4a6e4d9d9ab41665f2124 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:03:45 +0000
Subject: [PATCH 17/25] fix: window size of collections of segmentations in
 position format

---
 segeval/window/__init__.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/segeval/window/__init__.py b/segeval/window/__init__.py
index be26b63..11831ef 100644
--- a/segeval/window/__init__.py
+++ b/segeval/window/__init__.py
@@ -41,12 +41,12 @@ def __compute_window_size__(reference, fnc_round, boundary_format):
             for cur_inner_coder_masses in inner_coder_masses.values():
                 __list_coder_masses__(cur_inner_coder_masses)
         elif hasattr(inner_coder_masses, '__iter__') and not isinstance(inner_coder_masses, str):
+            if boundary_format == BoundaryFormat.position:
+                inner_coder_masses = convert_positions_to_masses(inner_coder_masses)
             all_masses.extend(inner_coder_masses)
         else:
             raise SegmentationMetricError('Expected either a dict-like \
 collection of segmentations or a segmentation as a list-like object')
-    if boundary_format == BoundaryFormat.position:
-        reference = convert_positions_to_masses(reference)
     # Recurse and list all masses
     __list_coder_masses__(reference)
     # Convert to floats
@@ -60,6 +60,8 @@ collection of segmentations or a segmentation as a list-like object')
 def compute_window_size(reference, **kwargs):
     metric_kwargs = dict(WINDOW_METRIC_DEFAULTS)
     metric_kwargs.update(kwargs)
+    if hasattr(reference, 'boundary_format'):
+        metric_kwargs['boundary_format'] = reference.boundary_format
     del metric_kwargs['one_minus']
     del metric_kwargs['permuted']
     del metric_kwargs['window_size']
-- 
2.43.0


From 8a48f9b0db1745e73fef585ff54dbefaff10046b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:03:49 +0000
Subject: [PATCH 18/25] fix: precision and recall of a class with a decimal
 zero on the diagonal

---
 segeval/ml/__init__.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/segeval/ml/__init__.py b/segeval/ml/__init__.py
index a1cb2f7..878578a 100644
--- a/segeval/ml/__init__.py
+++ b/segeval/ml/__init__.py
@@ -70,7 +70,7 @@ def __precision__(matrix, classification, return_parts=False):
     if return_parts:
         return numerator, denominator
     else:
-        if numerator is 0:
+        if numerator == 0:
             return Decimal(0)
         else:
             return Decimal(numerator) / Decimal(denominator)
@@ -86,7 +86,7 @@ def __recall__(matrix, classification, return_parts=False):
     if return_parts:
         return numerator, denominator
     else:
-        if numerator is 0:
+        if numerator == 0:
             return Decimal(0)
         else:
             return Decimal(numerator) / Decimal(denominator)
-- 
2.43.0


From 9eae90e0e54fb3ac696fb1fb798a50e6050be373 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:03:53 +0000
Subject: [PATCH 19/25] fix: asking for precision or recall of a class added
 the class to the matrix

---
 segeval/ml/__init__.py | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/segeval/ml/__init__.py b/segeval/ml/__init__.py
index 878578a..e99767a 100644
--- a/segeval/ml/__init__.py
+++ b/segeval/ml/__init__.py
@@ -60,13 +60,21 @@ def __value_micro_macro__(fnc, arguments, classification=None,
         return values
 
 
+def __cell__(matrix, predicted, actual):
+    '''
+    Read a cell of a matrix without storing a default value for it.
+    '''
+    row = matrix.get(predicted)
+    return row.get(actual, 0) if row is not None else 0
+
+
 def __precision__(matrix, classification, return_parts=False):
 
     predicted = classification
     denominator = 0
     for actual in matrix.classes():
-        denominator += matrix[predicted][actual]
-    numerator = matrix[classification][classification]
+        denominator += __cell__(matrix, predicted, actual)
+    numerator = __cell__(matrix, classification, classification)
     if return_parts:
         return numerator, denominator
     else:
@@ -81,8 +89,8 @@ def __recall__(matrix, classification, return_parts=False):
     actual = classification
     denominator = 0
     for predicted in matrix.classes():
-        denominator += matrix[predicted][actual]
-    numerator = matrix[classification][classification]
+        denominator += __cell__(matrix, predicted, actual)
+    numerator = __cell__(matrix, classification, classification)
     if return_parts:
         return numerator, denominator
     else:
-- 
2.43.0


From d59297bd13e7c39e264b0d163db9fa9dbe686aa3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:03:56 +0000
Subject: [PATCH 20/25] fix: classes of a confusion matrix were cached across
 some of its changes

---
 segeval/ml/__init__.py | 28 +++++++++-------------------
 1 file changed, 9 insertions(+), 19 deletions(-)

diff --git a/segeval/ml/__init__.py b/segeval/ml/__init__.py
index e99767a..7775b30 100644
--- a/segeval/ml/__init__.py
+++ b/segeval/ml/__init__.py
@@ -198,18 +198,12 @@ def fmeasure(matrix, classification=None, beta=Decimal('1.0'),
 class _InnerConfusionMatrix(defaultdict):
 
     '''
-    Inner dict of the confusion matrix; used to determine when the classes list
-    is dirty.
+    Inner dict of the confusion matrix.
     '''
 
-    def __init__(self, parent):
-        self.__parent__ = parent
+    def __init__(self):
         defaultdict.__init__(self, int)
 
-    def __setitem__(self, key, value):
-        self.__parent__.__dirty_classes__ = True
-        defaultdict.__setitem__(self, key, value)
-
 
 class ConfusionMatrix(dict):
 
@@ -217,8 +211,6 @@ class ConfusionMatrix(dict):
     A :func:`dict`-like representation of a confusion matrix offering some automation.
     To access/store values, use: ``matrix[predicted][actual]``.
     '''
-    __classes__ = set()
-    __dirty_classes__ = False
 
     def __setitem__(self, key, value):
         raise AttributeError('no such method')
@@ -240,7 +232,7 @@ class ConfusionMatrix(dict):
         '''
         value = None
         if key not in self:
-            value = _InnerConfusionMatrix(self)
+            value = _InnerConfusionMatrix()
             dict.__setitem__(self, key, value)
         else:
             value = dict.__getitem__(self, key)
@@ -250,11 +242,9 @@ class ConfusionMatrix(dict):
         '''
         Retrieve the set of all classes.
         '''
-        if self.__dirty_classes__:
-            self.__classes__ = set()
-            for predicted, values in self.items():
-                self.__classes__.add(predicted)
-                for actual in values.keys():
-                    self.__classes__.add(actual)
-            self.__dirty_classes__ = False
-        return self.__classes__
+        classes = set()
+        for predicted, values in self.items():
+            classes.add(predicted)
+            for actual in values.keys():
+                classes.add(actual)
+        return classes
-- 
2.43.0


From 2be5f0a54748a32b13ad95ec3b720905e1508e92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:04:22 +0000
Subject: [PATCH 21/25] fix: copy, deepcopy and pickle lost the content or
 format of a dataset

---
 segeval/data/__init__.py | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/segeval/data/__init__.py b/segeval/data/__init__.py
index 6e9f62b..8538b3b 100644
--- a/segeval/data/__init__.py
+++ b/segeval/data/__init__.py
@@ -105,6 +105,20 @@ class Dataset(defaultdict):
         dataset.boundary_format = copy.deepcopy(self.boundary_format)
         return dataset
 
+    def __reduce__(self):
+        '''
+        Support deep copying and pickling.
+        '''
+        return self.__class__, (dict(self), self.properties,
+                                self.boundary_types, self.boundary_format)
+
+    def __copy__(self):
+        '''
+        Support shallow copying.
+        '''
+        dataset_class, arguments = self.__reduce__()
+        return dataset_class(*arguments)
+
 
 def get_coders(container):
     # Not Dataset.coders, which codings assigned or deleted directly bypass
-- 
2.43.0


From b9a30a35511b143d9140b21abd14842f6e2dad21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:26:03 +0000
Subject: [PATCH 22/25] fix: datasets of equal format were rejected unless they
 shared one format object

---
 segeval/util/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/segeval/util/__init__.py b/segeval/util/__init__.py
index 4fe260b..7b46be0 100644
--- a/segeval/util/__init__.py
+++ b/segeval/util/__init__.py
@@ -70,7 +70,7 @@ def __fnc_metric__(fnc_metric, args, kwargs, kw_defaults):
         if isinstance(hypothesis, Dataset) and isinstance(reference, Dataset):
             # Compare pairwise values between coders paired from two datasets
             metric_kwargs['boundary_format'] = hypothesis.boundary_format
-            if hypothesis.boundary_format is not reference.boundary_format:
+            if hypothesis.boundary_format != reference.boundary_format:
                 raise SegmentationMetricError(
                     'Datasets contain differing boundary formats; {0} != {1}'
                     .format(hypothesis.boundary_format, reference.boundary_format))
-- 
2.43.0


From e4760e0affe315c98d75df9040e8f9fcb330820e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:46:21 +0000
Subject: [PATCH 23/25] fix: all but the last row of a coder in a TSV file were
 dropped silently

---
 segeval/data/tsv.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/segeval/data/tsv.py b/segeval/data/tsv.py
index a7cca2a..b925ddd 100644
--- a/segeval/data/tsv.py
+++ b/segeval/data/tsv.py
@@ -22,7 +22,7 @@ def input_linear_mass_tsv(filepath, delimiter=DEFAULT_DELIMITER):
     :type delimiter: str
     '''
 
-    from segeval.data import Dataset, name_from_filepath
+    from segeval.data import Dataset, DataIOError, name_from_filepath
     # List version of file
     header = []
     dataset = Dataset()
@@ -44,6 +44,9 @@ def input_linear_mass_tsv(filepath, delimiter=DEFAULT_DELIMITER):
                     # Skip the first col
                     if j is 0:
                         coder = str(col)
+                        if coder in dataset[item]:
+                            raise DataIOError('Duplicate coders of same name \
+%(coder)s found in file %(file)s' % {'coder': coder, 'file': filepath})
                         dataset[item][coder] = list()
                     else:
                         dataset[item][coder].append(int(col))
-- 
2.43.0


From 82df74f38e27840053482aa8b250fa7314ae8ea6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:55:35 +0000
Subject: [PATCH 24/25] fix: a confusion matrix could not be copied or pickled

---
 segeval/ml/__init__.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/segeval/ml/__init__.py b/segeval/ml/__init__.py
index 7775b30..2bdc75a 100644
--- a/segeval/ml/__init__.py
+++ b/segeval/ml/__init__.py
@@ -201,8 +201,9 @@ class _InnerConfusionMatrix(defaultdict):
     Inner dict of the confusion matrix.
     '''
 
-    def __init__(self):
-        defaultdict.__init__(self, int)
+    def __init__(self, *args):
+        # Copying and pickling supply the factory and items
+        defaultdict.__init__(self, *(args or (int,)))
 
 
 class ConfusionMatrix(dict):
@@ -238,6 +239,12 @@ class ConfusionMatrix(dict):
             value = dict.__getitem__(self, key)
         return value
 
+    def __reduce__(self):
+        '''
+        Support copying and pickling.
+        '''
+        return self.__class__, (dict(self),)
+
     def classes(self):
         '''
         Retrieve the set of all classes.
-- 
2.43.0


From ce28812cc501d151216b833db9decd5949f71e69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:50:40 +0000
Subject: [PATCH 25/25] fix: recognise overlapping transpositions of equal
 types that are not one object

---
 segeval/similarity/distance/multipleboundary.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/segeval/similarity/distance/multipleboundary.py b/segeval/similarity/distance/multipleboundary.py
index 2ed4ba7..a34c10c 100644
--- a/segeval/similarity/distance/multipleboundary.py
+++ b/segeval/similarity/distance/multipleboundary.py
@@ -103,7 +103,7 @@ def __overlaps_existing__(i, j, d, options_transp):
         if position in options_transp:
             for t in options_transp[position]:
                 # If the transposition 't' is of the boundary type 'd'
-                if t[2] is d:
+                if t[2] == d:
                     return True
     return check_position(i) or check_position(j)
 
-- 
2.43.0

