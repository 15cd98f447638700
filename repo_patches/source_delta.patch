From fe6acb5129457405eb4315c2be07778907df2e01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:34:14 +0000
Subject: [PATCH 01/93] fix: Operation.run with a class run module referred to
 an undefined name

---
 src/eumopps/catalogue/operation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/eumopps/catalogue/operation.py b/src/eumopps/catalogue/operation.py
index 9a247dd..4446712 100644
--- a/src/eumopps/catalogue/operation.py
+++ b/src/eumopps/catalogue/operation.py
@@ -38,7 +38,7 @@ class Operation(object):
 
         if hasattr(self.runmodule, 'run'):
 
-            return runmodule.run()
+            return self.runmodule.run()
 
         else:
 
-- 
2.43.0


From 7b6d9ce86cac29af5d5e3fcad6a7bfd73340b502 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:34:14 +0000
Subject: [PATCH 02/93] fix: building a catalogue with dataset_filter indexed a
 method instead of the dataset list

---
 src/eumopps/catalogue/build.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/eumopps/catalogue/build.py b/src/eumopps/catalogue/build.py
index 86255f3..80b5d1f 100644
--- a/src/eumopps/catalogue/build.py
+++ b/src/eumopps/catalogue/build.py
@@ -48,7 +48,7 @@ def build(inputcatalogue, cataloguefilename, update=False, dataset_filter=None,
             raise ValueError('requested dataset \"{0}\" not found'.format(dataset_filter))
 
         # Restrict to requested
-        inputcatalogue.datasets = [ inputcatalogue.dataset[datasetindex] ]
+        inputcatalogue.datasets = [ inputcatalogue.datasets[datasetindex] ]
 
     # search for data and compute checksums
     for dataset in inputcatalogue.datasets:
-- 
2.43.0


From aae506e79481d8ecba4427d037911f12f9467f2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:34:14 +0000
Subject: [PATCH 03/93] fix: cylc batch specifications called methods that do
 not exist to count operations

---
 src/eumopps/catalogue/jinja/batches.py      | 4 ++--
 src/eumopps/catalogue/jinja/eumopps_cylc.py | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/eumopps/catalogue/jinja/batches.py b/src/eumopps/catalogue/jinja/batches.py
index b51d410..0c10988 100644
--- a/src/eumopps/catalogue/jinja/batches.py
+++ b/src/eumopps/catalogue/jinja/batches.py
@@ -17,12 +17,12 @@ class BatchSpecification(object):
     def operation_count(self):
         """Query catalogue to find operations."""
 
-        return CatalogueReaderNetCDF().quickcount(self.catalogue, self.modulename, 'operations')
+        return CatalogueReaderNetCDF().operationcount(self.catalogue, self.modulename)
 
     def cycle_points_required(self):
         """Get cycle points required to cover required operations, assuming number of operations per cycle point is self.batchsize."""
 
-        return CatalogueReaderNetCDF().quickcount(self.catalogue, self.modulename, 'operations', batchsize=self.batchsize)
+        return CatalogueReaderNetCDF().operationcount(self.catalogue, self.modulename, batchsize=self.batchsize)
 
     def scheduling(self):
         """String for scheduling item."""
diff --git a/src/eumopps/catalogue/jinja/eumopps_cylc.py b/src/eumopps/catalogue/jinja/eumopps_cylc.py
index b4f0a8d..28d8ce0 100644
--- a/src/eumopps/catalogue/jinja/eumopps_cylc.py
+++ b/src/eumopps/catalogue/jinja/eumopps_cylc.py
@@ -11,7 +11,7 @@ def eumopps_cylc(config, methodname, modulename=None):
 
 def eumopps_cycle_points_required(specs):
     
-    return BatchSpecificationCollection(specs).cyle_points_required()
+    return BatchSpecificationCollection(specs).cycle_points_required()
 
 def eumopps_initial_cycle_point(specs):
 
-- 
2.43.0


From b58cb5230a39c9b34f2217b1e0dcd7cb34496f0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:34:14 +0000
Subject: [PATCH 04/93] fix: times up to a day before the first daily step were
 counted as belonging to it

---
 src/eumopps/catalogue/step.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/eumopps/catalogue/step.py b/src/eumopps/catalogue/step.py
index 0b86390..da84044 100644
--- a/src/eumopps/catalogue/step.py
+++ b/src/eumopps/catalogue/step.py
@@ -3,6 +3,7 @@
 from eumopps.timeutils import datetime_numeric
 from eumopps.timeutils.timebase import TimeBaseDays
 from eumopps.catalogue.dataset import CatalogueFileEntry
+import math
 import os.path
 from datetime import datetime
 
@@ -96,7 +97,7 @@ class StepDaily(Step):
 
     def index_at_time(self, t):
 
-        return int( self.timebase().datetime_to_number(t) )
+        return int( math.floor( self.timebase().datetime_to_number(t) ) )
 
     def time_at_index(self, operationindex):
 
-- 
2.43.0


From c369c23fae2140f2afd13d43ae929d893e33e6de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:34:14 +0000
Subject: [PATCH 05/93] fix: microseconds were counted as fractions of a
 second, not of a day, in the number of days

---
 src/eumopps/timeutils/timebase.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/eumopps/timeutils/timebase.py b/src/eumopps/timeutils/timebase.py
index 29ca676..e01f639 100644
--- a/src/eumopps/timeutils/timebase.py
+++ b/src/eumopps/timeutils/timebase.py
@@ -53,7 +53,7 @@ class TimeBaseDays(TimeBase):
     def datetime_to_number(self, d):
         """Convert datetime object to a floating point or integer number."""
         td = d - self.epoch
-        return float(td.days) + (float(td.seconds) / 86400.0) + (float(td.microseconds) / 1000000.0)
+        return float(td.days) + (float(td.seconds) / 86400.0) + (float(td.microseconds) / 86400000000.0)
 
     def number_to_datetime(self, n):
         """Convert number to datetime object."""
-- 
2.43.0


From 06e79a454cac5ab07499dafdc2661818940e3172 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:34:14 +0000
Subject: [PATCH 06/93] fix: missing elements were dropped when loading a list,
 moving later values to other entries

---
 src/eumopps/netcdfobjects/netcdfobjects.py | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/src/eumopps/netcdfobjects/netcdfobjects.py b/src/eumopps/netcdfobjects/netcdfobjects.py
index 190c86b..d1e41cd 100644
--- a/src/eumopps/netcdfobjects/netcdfobjects.py
+++ b/src/eumopps/netcdfobjects/netcdfobjects.py
@@ -88,16 +88,12 @@ def read_variable(variable):
 
         elif variable.ndim == 1:
 
-            # Remove any masked ones
-            if hasattr(result, 'mask'):
-                result = result.data[~result.mask]
-
-            # Convert to list
+            # Convert to list (any masked ones are represented by None)
             result = result.tolist()
 
             # Convert to datetime if requested
             if ('units' in variable.ncattrs()) and (variable.units == TIMEBASE.units()):
-                result = [ TIMEBASE.number_to_datetime(element) for element in result ]
+                result = [ TIMEBASE.number_to_datetime(element) if (element is not None) else None for element in result ]
 
         elif variable.ndim == 2:
 
-- 
2.43.0


From 3d4552e7591ff85a5b57ce2c484dbdba7d911a5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:34:14 +0000
Subject: [PATCH 07/93] fix: zero, False and empty text members were lost when
 saving objects as JSON

---
 src/eumopps/jsonobjects/jsonobjects.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/eumopps/jsonobjects/jsonobjects.py b/src/eumopps/jsonobjects/jsonobjects.py
index 8c64643..80bfc35 100644
--- a/src/eumopps/jsonobjects/jsonobjects.py
+++ b/src/eumopps/jsonobjects/jsonobjects.py
@@ -26,7 +26,7 @@ def save_object(obj):
     if hasattr(obj, '__dict__'):
 
         # Make dictionary of all class items and recurse if needed
-        result = dict((k, save_object(v)) for k, v in obj.__dict__.iteritems() if v)
+        result = dict((k, save_object(v)) for k, v in obj.__dict__.iteritems() if (v is not None) and (not isinstance(v, list) or len(v) > 0))
     
         # Append class name and module so we can recreate
         result[CLASSID] = get_class_id(obj)
-- 
2.43.0


From 8ac56880a6d6638dc35c40253c2ca0d11d5586b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:34:14 +0000
Subject: [PATCH 08/93] fix: tasks past the end of the last batch failed
 although they are allowed

---
 src/eumopps/catalogue/commandrun.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/eumopps/catalogue/commandrun.py b/src/eumopps/catalogue/commandrun.py
index 9ee93a4..4d27318 100644
--- a/src/eumopps/catalogue/commandrun.py
+++ b/src/eumopps/catalogue/commandrun.py
@@ -45,6 +45,12 @@ def commandrun(timestamp, cataloguepathname, operationname, index, use_batch_siz
 
         except IndexError:
 
+            # If running in batch mode we allow out-of-range operations (at tail end of last batch)
+            # but otherwise it's an error
+            if use_batch_size:
+                print 'eumopps.catalogue.commandrun operation out of range: {0}'.format(index)
+                return None
+
             raise ValueError('operation index out of range')
 
         if justlist:
-- 
2.43.0


From 6fd0e4b140298b5dca780b624eddd59e6fdc25eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:34:14 +0000
Subject: [PATCH 09/93] fix: running a last batch with fewer operations than
 the batch size failed before its outer operation

---
 src/eumopps/catalogue/multiplecommandsrun.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/eumopps/catalogue/multiplecommandsrun.py b/src/eumopps/catalogue/multiplecommandsrun.py
index 6c8b7a8..40a46c8 100644
--- a/src/eumopps/catalogue/multiplecommandsrun.py
+++ b/src/eumopps/catalogue/multiplecommandsrun.py
@@ -17,8 +17,12 @@ def multiple_commands_run(timestamp, cataloguepathname, outeroperationmethod, in
     if batch_size == 0:
             raise ValueError('eumopps.catalogue.multiple_commandsrun: batch_size has to be at least 1')
 
+    # The last batch may have fewer operations
+    operation_count = CatalogueReaderNetCDF().operationcount(cataloguepathname, inneroperationname)
+    operations_in_batch = max(0, min(batch_size, operation_count - (batch * batch_size)))
+
     if justlist:
-	for operationindex in range(batch_size):
+	for operationindex in range(operations_in_batch):
 	    daily_inputs = commandrun(timestamp, cataloguepathname, inneroperationname, operationindex, batch_size, batch, False, allow_toolchain_mismatch)
 
 	    print 'Batch ',batch
@@ -26,7 +30,7 @@ def multiple_commands_run(timestamp, cataloguepathname, outeroperationmethod, in
 	    print 'Daily inputs \n', daily_inputs
     else:
 	list_of_daily_inputs = []
-	for operationindex in range(batch_size):
+	for operationindex in range(operations_in_batch):
 	    daily_inputs = commandrun(timestamp, cataloguepathname, inneroperationname, operationindex, batch_size, batch, False, allow_toolchain_mismatch)  
 	    list_of_daily_inputs.append(daily_inputs)
 		
-- 
2.43.0


From a276a4f6bdb78f8dfa7aa50ec725b90303c014fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:36:31 +0000
Subject: [PATCH 10/93] fix: tables without missing elements could not be
 loaded when the NetCDF library gives them a scalar mask

---
 src/eumopps/netcdfobjects/netcdfobjects.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/eumopps/netcdfobjects/netcdfobjects.py b/src/eumopps/netcdfobjects/netcdfobjects.py
index d1e41cd..7ecfe97 100644
--- a/src/eumopps/netcdfobjects/netcdfobjects.py
+++ b/src/eumopps/netcdfobjects/netcdfobjects.py
@@ -99,7 +99,8 @@ def read_variable(variable):
 
             # Remove any masked per-row and convert to lists
             if hasattr(result, 'mask'):
-                result = [ (result.data[rowindex,~result.mask[rowindex,:]]).tolist() for rowindex in range(variable.shape[0]) ]
+                mask = numpy.ma.getmaskarray(result)
+                result = [ (result.data[rowindex,~mask[rowindex,:]]).tolist() for rowindex in range(variable.shape[0]) ]
             else:
                 result = [ (result[rowindex,:]).tolist() for rowindex in range(variable.shape[0]) ]
 
-- 
2.43.0


From 92275482480eeaad02ea8e3d83fbed83dfe22304 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:36:56 +0000
Subject: [PATCH 11/93] fix: catalogues with tar archive layouts could be saved
 but not loaded

---
 src/eumopps/catalogue/storage.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/eumopps/catalogue/storage.py b/src/eumopps/catalogue/storage.py
index ce50f37..b2682de 100644
--- a/src/eumopps/catalogue/storage.py
+++ b/src/eumopps/catalogue/storage.py
@@ -46,9 +46,14 @@ class DataStorageArchive(DataStorage):
     def __init__(self, archivepathname, internalpathname):
 
         super(DataStorageArchive, self).__init__()
-        self.pathname = archivepathname
+        self.archivepathname = archivepathname
         self.internalpathname = internalpathname
 
+    @property
+    def pathname(self):
+        """Pattern for archive names (stored under its parameter name so that saved objects can be rebuilt)."""
+        return self.archivepathname
+
     def match_files(self, catalogue_subset, datasetpath, candidates):
         """Search for matching files on the specified path and inside the archive files"""
 
-- 
2.43.0


From b023de197fdc79a854033752d401a2969487b270 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:40:01 +0000
Subject: [PATCH 12/93] fix: an optional input of a data subset without any
 files could not be passed on as missing

---
 src/eumopps/catalogue/fileio/formatnetcdf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/eumopps/catalogue/fileio/formatnetcdf.py b/src/eumopps/catalogue/fileio/formatnetcdf.py
index ba39403..e805a53 100644
--- a/src/eumopps/catalogue/fileio/formatnetcdf.py
+++ b/src/eumopps/catalogue/fileio/formatnetcdf.py
@@ -107,10 +107,10 @@ class CatalogueReaderNetCDF(CatalogueReader):
         for ref in reflist:
             dataset = ncfile.groups[netcdfobjects.LISTITEM_OBJECT_SUFFIX.format('datasets', ref.dataset)]
             subset = dataset.groups[netcdfobjects.LISTITEM_OBJECT_SUFFIX.format('subsets', ref.subset)]
-            matches = subset.groups['matches']
             
             # Construct pathname if the entry index is valid, otherwise no match is available in the catalogue
             if ref.entry>=0:
+                matches = subset.groups['matches']
                 name = str(chartostring(matches.variables['name'][ref.entry, :]))
                 path = dataset.getncattr('path')
                 names.append(os.path.join(path, name))
-- 
2.43.0


From dcad3754a19f1129ba9677750e3b81937959bef9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:40:14 +0000
Subject: [PATCH 13/93] fix: a catalogue in which all steps of an operation are
 skipped could be saved but not loaded

---
 src/eumopps/catalogue/operationparameters.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/eumopps/catalogue/operationparameters.py b/src/eumopps/catalogue/operationparameters.py
index 92db459..a503b54 100644
--- a/src/eumopps/catalogue/operationparameters.py
+++ b/src/eumopps/catalogue/operationparameters.py
@@ -13,10 +13,11 @@ class OperationParameter(object):
 class OperationParameterList(OperationParameter):
     """Base class stored on final catalogues which lists parameters for multiple operations."""
 
-    def __init__(self, operation_parameters):
+    def __init__(self, operation_parameters=None):
         """Initialise with given list."""
 
-        self.operation_parameters = operation_parameters
+        # An empty list is not stored on the catalogue
+        self.operation_parameters = operation_parameters if (operation_parameters is not None) else [ ]
 
     def restrict_to_subset(self, restrict_to_operations):
         """Restrict to specified list of operation indices. 
@@ -38,7 +39,7 @@ class OperationParameterList(OperationParameter):
 class OperationFileReference(OperationParameterList):
     """Intermediate class holding dataset references grouped by step index."""
     
-    def __init__(self, operation_parameters):
+    def __init__(self, operation_parameters=None):
         """Store reference."""
         
         super(OperationFileReference, self).__init__(operation_parameters)
@@ -53,7 +54,7 @@ class OperationFileReference(OperationParameterList):
 class OperationFileListReference(OperationParameterList):
     """Intermediate class holding dataset references grouped by step index."""
     
-    def __init__(self, operation_parameters):
+    def __init__(self, operation_parameters=None):
         """Store reference."""
         
         super(OperationFileListReference, self).__init__(operation_parameters)
-- 
2.43.0


From 809ab889bfcc24ae194bd565569bf87e61bd6042 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:41:01 +0000
Subject: [PATCH 14/93] fix: parent folders whose field values concatenate to
 the same text were given each other's values

---
 src/eumopps/catalogue/namepatterns.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/eumopps/catalogue/namepatterns.py b/src/eumopps/catalogue/namepatterns.py
index 660a51f..905c162 100644
--- a/src/eumopps/catalogue/namepatterns.py
+++ b/src/eumopps/catalogue/namepatterns.py
@@ -127,7 +127,7 @@ def nested_search_patterns(patterns, candidates):
             outcome = matcher.match(candidate.get_name())
             if outcome:
                 values = outcome.groupdict()
-                key = hash_string_dictionary(values)
+                key = tuple(sorted(values.items()))
                 remainingpart = candidate.get_name()[outcome.end():]
                 entry = (candidate, remainingpart)
                 if key not in parentvalues:
-- 
2.43.0


From 99c4e5e18f17b8a5ec2bc4cd9a7179dcf850d147 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:46:09 +0000
Subject: [PATCH 15/93] fix: C++ day numbers depended on the time zone of the
 process

---
 src/cpp/eustace/timeutils/timebase.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/cpp/eustace/timeutils/timebase.cpp b/src/cpp/eustace/timeutils/timebase.cpp
index 7fdc026..0af469a 100644
--- a/src/cpp/eustace/timeutils/timebase.cpp
+++ b/src/cpp/eustace/timeutils/timebase.cpp
@@ -11,7 +11,7 @@ namespace EUSTACE
     tm_year = year - 1900;
     tm_mon = month - 1;
     tm_mday = day; 
-    mktime(this);
+    timegm(this);
   }
 
   CalendarDay::CalendarDay(const std::string& str)
@@ -39,14 +39,14 @@ namespace EUSTACE
     std::tm t0 = epoch;
     std::tm t1 = time;
 
-    return std::difftime(std::mktime(&t1), std::mktime(&t0)) / 86400;
+    return std::difftime(timegm(&t1), timegm(&t0)) / 86400;
   }
 
   std::tm TimeBaseDays::Time(int64_t daynumber) const
   {
     std::tm epoch_offset = epoch;
     epoch_offset.tm_mday += daynumber;
-    mktime(&epoch_offset);
+    timegm(&epoch_offset);
     return epoch_offset;
   }
 }
-- 
2.43.0


From 9f43d2229f9530a8ca1ece8fabbab16f40783c68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:46:09 +0000
Subject: [PATCH 16/93] fix: the last seconds of a year or month were counted
 as belonging to the next one

---
 src/eumopps/timeutils/timebase.py | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/src/eumopps/timeutils/timebase.py b/src/eumopps/timeutils/timebase.py
index e01f639..cf7fcae 100644
--- a/src/eumopps/timeutils/timebase.py
+++ b/src/eumopps/timeutils/timebase.py
@@ -8,6 +8,7 @@ __author__ = "Joel R. Mitchelson"
 
 from numpy import int64
 from numpy import float32
+from numpy import float64
 from datetime import timedelta, datetime
 import numpy
 
@@ -131,10 +132,10 @@ class TimeBaseAnnual(TimeBase):
         year_end = datetime(d.year + 1, 1, 1)
 
         # Seconds since start of year
-        t_seconds = float32( (d - year_start).total_seconds() )
+        t_seconds = float64( (d - year_start).total_seconds() )
 
         # Total seconds in this year
-        total_seconds = float32( (year_end - year_start).total_seconds() )
+        total_seconds = float64( (year_end - year_start).total_seconds() )
         
         return t_seconds / total_seconds
 
@@ -161,7 +162,7 @@ class TimeBaseAnnual(TimeBase):
         
         # Convert year_fraction to seconds
         year_end = datetime(self.epoch.year + int( numpy.floor(n) ) + 1, 1, 1)        
-        total_seconds_in_year = float32( (year_end - year_start).total_seconds() )
+        total_seconds_in_year = float64( (year_end - year_start).total_seconds() )
         
         elapsed_seconds_this_year = year_fraction * total_seconds_in_year
         
@@ -208,10 +209,10 @@ class TimeBaseMonthly(TimeBase):
         year_end = datetime(d.year + 1, 1, 1)
 
         # Seconds since start of year
-        t_seconds = float32( (d - year_start).total_seconds() )
+        t_seconds = float64( (d - year_start).total_seconds() )
 
         # Total seconds in this year
-        total_seconds = float32( (year_end - year_start).total_seconds() )
+        total_seconds = float64( (year_end - year_start).total_seconds() )
         
         return t_seconds / total_seconds
 
@@ -226,10 +227,10 @@ class TimeBaseMonthly(TimeBase):
         month_end = month_start+relativedelta(months=1)
 
         # Seconds since start of month
-        t_seconds = float32( (d - month_start).total_seconds() )
+        t_seconds = float64( (d - month_start).total_seconds() )
 
         # Total seconds in this month
-        total_seconds = float32( (month_end - month_start).total_seconds() )
+        total_seconds = float64( (month_end - month_start).total_seconds() )
         
         return t_seconds / total_seconds
 
@@ -245,7 +246,7 @@ class TimeBaseMonthly(TimeBase):
         # Get datetime for the month's start and the total number of seconds in the month
         month_start = self.epoch + relativedelta(months=int(numpy.floor(n)))
         month_end   = month_start + relativedelta(months=1)
-        total_seconds_in_month = float32( (month_end - month_start).total_seconds() )
+        total_seconds_in_month = float64( (month_end - month_start).total_seconds() )
         
         # Get the time elapsed since the start of the month
         elapsed_fraction_of_month = n - numpy.floor(n)
-- 
2.43.0


From 38b51b23e7da624fecab7333698f650cc4b20366 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:46:09 +0000
Subject: [PATCH 17/93] fix: mid-month steps ignored the month of their epoch

---
 .../analysis/advanced_standard/examples/stepmidmonth.py       | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/eustace/analysis/advanced_standard/examples/stepmidmonth.py b/src/eustace/analysis/advanced_standard/examples/stepmidmonth.py
index 7f3fdbc..9b9efb6 100644
--- a/src/eustace/analysis/advanced_standard/examples/stepmidmonth.py
+++ b/src/eustace/analysis/advanced_standard/examples/stepmidmonth.py
@@ -24,8 +24,8 @@ class StepMidMonth(Step):
         """Compute the mid-point of given month number since epoch and return as datetime object.
            This is needed because HadCRUT4 uses midmonth values on the time axis."""
 
-        year = datetime_numeric.parse(self.epoch).year
-        total = 12*year + operationindex
+        epochtime = datetime_numeric.parse(self.epoch)
+        total = 12*epochtime.year + (epochtime.month - 1) + operationindex
         t0 = datetime(total / 12, 1 + (total % 12), 1)
         t1 = datetime((total + 1)/12, 1 + ((total + 1) % 12), 1)
         halfmonth = (t1 - t0) / 2
-- 
2.43.0


From 1ba121d0ba943a6ccbcc4e00d049c06f1d468945 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:46:09 +0000
Subject: [PATCH 18/93] fix: times up to a day before the epoch were counted as
 belonging to its day

---
 src/eustace/analysis/advanced_standard/fileio/step.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/eustace/analysis/advanced_standard/fileio/step.py b/src/eustace/analysis/advanced_standard/fileio/step.py
index a0cad7e..d444e8f 100644
--- a/src/eustace/analysis/advanced_standard/fileio/step.py
+++ b/src/eustace/analysis/advanced_standard/fileio/step.py
@@ -5,6 +5,7 @@ from eumopps.catalogue.step import StepDaily
 from eumopps.timeutils.timebase import TimeBaseDays
 from eumopps.catalogue.dataset import CatalogueFileEntry
 from eustace.timeutils.epoch import EPOCH
+import math
 import os.path
 from datetime import datetime
 
@@ -41,7 +42,7 @@ class StepDailyEpoch(StepDaily):
         return name
         
     def index_at_time(self, t):
-        return int( self.timebase().datetime_to_number(t) )
+        return int( math.floor( self.timebase().datetime_to_number(t) ) )
 
     def time_at_index(self, operationindex):
         return self.timebase().number_to_datetime(operationindex)
\ No newline at end of file
-- 
2.43.0


From bc11996831c911a12b007599335f199f8cf69168 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:48:16 +0000
Subject: [PATCH 19/93] fix: break point and mesh readers used buffers of the
 wrong size or type and ignored NetCDF errors

---
 .../break_points/insitu_land_break_points.cpp | 54 +++++++++++++------
 .../break_points/insitu_land_break_points.h   |  9 ++--
 src/cpp/eustace/analysis/fileio/mesh.cpp      | 26 +++++++--
 3 files changed, 64 insertions(+), 25 deletions(-)

diff --git a/src/cpp/eustace/analysis/break_points/insitu_land_break_points.cpp b/src/cpp/eustace/analysis/break_points/insitu_land_break_points.cpp
index 890f24b..b4671eb 100644
--- a/src/cpp/eustace/analysis/break_points/insitu_land_break_points.cpp
+++ b/src/cpp/eustace/analysis/break_points/insitu_land_break_points.cpp
@@ -2,12 +2,30 @@
 
 namespace EUSTACE
 {
+  static int GetVariable(int ncid, int varid, float* contents)
+  { return nc_get_var_float(ncid, varid, contents); }
+
+  static int GetVariable(int ncid, int varid, int32_t* contents)
+  { return nc_get_var_int(ncid, varid, contents); }
+
+  static int GetVariable(int ncid, int varid, int8_t* contents)
+  { return nc_get_var_schar(ncid, varid, contents); }
+
+  void BreakNetCDFHelper::Close()
+  {
+    if (ncid)
+    {
+      nc_close(ncid);
+      ncid = 0;
+    }
+  }
   
   void BreakNetCDFHelper::GetDimensions(std::vector<size_t>& dimensions, const char* name) const throw (BreakPointsReaderException)
   {
     // ID of variable
-    int varid(1);
-    nc_inq_varid(ncid, name, &varid);
+    int varid(0);
+    if (nc_inq_varid(ncid, name, &varid) != NC_NOERR)
+      throw BreakPointsReaderException();
 
     // Number of dimensions the variable has
     int ndims(0);
@@ -15,7 +33,7 @@ namespace EUSTACE
     
     // ID for each dimension
     std::vector<int> dimension_ids(ndims);
-    nc_inq_var(ncid, varid, NULL, NULL, NULL, &dimension_ids[0], NULL);
+    nc_inq_var(ncid, varid, NULL, NULL, NULL, dimension_ids.data(), NULL);
     
     // Count of each dimension
     for (std::vector<int>::const_iterator dimension_id_iterator(dimension_ids.begin()); dimension_id_iterator != dimension_ids.end(); dimension_id_iterator++)
@@ -28,23 +46,27 @@ namespace EUSTACE
 
   template<class DataT> void BreakNetCDFHelper::ReadData(std::vector<DataT>& contents, const char* name) const throw (BreakPointsReaderException)
   {
-    
-    int varid(0);
-    int status = nc_inq_varid(ncid, name, &varid);
-    if (status != NC_NOERR) 
-      std::cout << "ID STATUS " << status << std::endl ;
+    // Contents must have the size of the variable
+    std::vector<size_t> dimensions;
+    GetDimensions(dimensions, name);
+    size_t total(1);
+    for (std::vector<size_t>::const_iterator length(dimensions.begin()); length != dimensions.end(); length++)
+      total *= *length;
+    if (total != contents.size())
+      throw BreakPointsReaderException();
 
-    status = nc_get_var(ncid, varid, &contents[0]);
-    if (status != NC_NOERR) 
-      std::cout << "VAR STATUS " << status << std::endl ;
-  
+    // Read, converting from the type used in the file if necessary
+    int varid(0);
+    nc_inq_varid(ncid, name, &varid);
+    if (GetVariable(ncid, varid, contents.data()) != NC_NOERR)
+      throw BreakPointsReaderException();
   }
   
   
   void BreakPointsReader::close() throw(BreakPointsReaderException)
   {
     
-    netcdf.~BreakNetCDFHelper();
+    netcdf.Close();
     
   }
   
@@ -56,7 +78,7 @@ namespace EUSTACE
     netcdf.GetDimensions(latitude_dimension, "latitude");
     netcdf.GetDimensions(longitude_dimension, "longitude");
 
-    if ((latitude_dimension.size() != 1 ) || (latitude_dimension.size() != 1 ))
+    if ((latitude_dimension.size() != 1 ) || (longitude_dimension.size() != 1 ))
       throw BreakPointsReaderException();
     if (latitude_dimension[0] != longitude_dimension[0])
       throw BreakPointsReaderException();
@@ -65,8 +87,8 @@ namespace EUSTACE
     size_t npoints = latitude_dimension[0];
 
     // Get latitude and longitude
-    latitude.reserve(npoints);
-    longitude.reserve(npoints);
+    latitude.resize(npoints);
+    longitude.resize(npoints);
     netcdf.ReadData<float>(latitude, "latitude");
     netcdf.ReadData<float>(longitude, "longitude");
     
diff --git a/src/cpp/eustace/analysis/break_points/insitu_land_break_points.h b/src/cpp/eustace/analysis/break_points/insitu_land_break_points.h
index 23060ec..34780aa 100644
--- a/src/cpp/eustace/analysis/break_points/insitu_land_break_points.h
+++ b/src/cpp/eustace/analysis/break_points/insitu_land_break_points.h
@@ -33,14 +33,11 @@ namespace EUSTACE
   public:
     virtual ~BreakNetCDFHelper() 
       {
-    if (ncid)
-    {
-      nc_close(ncid);
-      ncid = 0;
-    }
-  }
+	Close();
+      }
   
   public:
+    void Close();
     void GetDimensions(std::vector<size_t>& dimensions, const char* name) const throw (BreakPointsReaderException);
     template<class DataT> void ReadData(std::vector<DataT>& contents, const char* name) const throw (BreakPointsReaderException);
     
diff --git a/src/cpp/eustace/analysis/fileio/mesh.cpp b/src/cpp/eustace/analysis/fileio/mesh.cpp
index 294745b..20316a1 100644
--- a/src/cpp/eustace/analysis/fileio/mesh.cpp
+++ b/src/cpp/eustace/analysis/fileio/mesh.cpp
@@ -6,6 +6,12 @@
 
 namespace EUSTACE
 {
+  static int GetVariable(int ncid, int varid, double* contents)
+  { return nc_get_var_double(ncid, varid, contents); }
+
+  static int GetVariable(int ncid, int varid, int32_t* contents)
+  { return nc_get_var_int(ncid, varid, contents); }
+
   class MeshNetCDFHelper
   {
   public:
@@ -47,7 +53,8 @@ namespace EUSTACE
   {
     // ID of variable
     int varid(0);
-    nc_inq_varid(ncid, name, &varid);
+    if (nc_inq_varid(ncid, name, &varid))
+      throw MeshReaderException();
 
     // Number of dimensions the variable has
     int ndims(0);
@@ -55,7 +62,7 @@ namespace EUSTACE
 
     // ID for each dimension
     std::vector<int> dimension_ids(ndims);
-    nc_inq_var(ncid, varid, NULL, NULL, NULL, &dimension_ids[0], NULL);
+    nc_inq_var(ncid, varid, NULL, NULL, NULL, dimension_ids.data(), NULL);
 
     // Count of each dimension
     for (std::vector<int>::const_iterator dimension_id_iterator(dimension_ids.begin()); dimension_id_iterator != dimension_ids.end(); dimension_id_iterator++)
@@ -68,9 +75,20 @@ namespace EUSTACE
 
   template<class DataT> void MeshNetCDFHelper::ReadData(std::vector<DataT>& contents, const char* name) const throw (MeshReaderException)
   {
+    // Contents must have the size of the variable
+    std::vector<size_t> dimensions;
+    GetDimensions(dimensions, name);
+    size_t total(1);
+    for (std::vector<size_t>::const_iterator length(dimensions.begin()); length != dimensions.end(); length++)
+      total *= *length;
+    if (total != contents.size())
+      throw MeshReaderException();
+
+    // Read, converting from the type used in the file if necessary
     int varid(0);
     nc_inq_varid(ncid, name, &varid);
-    nc_get_var(ncid, varid, &contents[0]);
+    if (GetVariable(ncid, varid, contents.data()))
+      throw MeshReaderException();
   }
 
   MeshReader::MeshReader()
@@ -102,6 +120,8 @@ namespace EUSTACE
     // Number of triangles
     std::vector<size_t> dimensions_triangles;
     netcdf.GetDimensions(dimensions_triangles, "Mesh2_face_nodes");
+    if (dimensions_triangles.size() != 2)
+      throw MeshReaderException();
     size_t ntriangles = dimensions_triangles[0];
 
     // Make output buffers
-- 
2.43.0


From 15e983ccd7d1d7335535b68d6d1cd45bbf3c0310 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:48:16 +0000
Subject: [PATCH 20/93] fix: truncated or missing binary files were read as
 uninitialised or invented data in C++

---
 .../analysis/fileio/locationpointers.cpp       | 18 +++++++++++++++++-
 src/cpp/eustace/analysis/fileio/rawbinary.cpp  | 12 ++++++++++--
 src/cpp/eustace/analysis/inputmanager.cpp      |  4 ++++
 src/cpp/eustace/analysis/inputmanager.h        | 10 +++++++++-
 src/cpp/eustace/analysis/observationsource.h   |  4 ++--
 5 files changed, 42 insertions(+), 6 deletions(-)

diff --git a/src/cpp/eustace/analysis/fileio/locationpointers.cpp b/src/cpp/eustace/analysis/fileio/locationpointers.cpp
index ffa7d97..3d58d0f 100644
--- a/src/cpp/eustace/analysis/fileio/locationpointers.cpp
+++ b/src/cpp/eustace/analysis/fileio/locationpointers.cpp
@@ -34,6 +34,10 @@ namespace EUSTACE
 
     // get count of location ids
     inputstream.read((char*)&location_count, sizeof(uint64_t));
+
+    // check they were there to read
+    if (!inputstream)
+      throw FormatExceptionUnexpectedDataSize();
   }
 
   void LocationPointersRawBinaryReader::Read(std::vector< std::vector<LocationPointerRecord> >& record, std::istream& inputstream, const std::vector<uint64_t>& location_id_subset) const throw(FormatException)
@@ -46,17 +50,29 @@ namespace EUSTACE
     // start of local offsets table
     size_t local_offset_table_start = inputstream.tellg();
 
+    // total size of file
+    inputstream.seekg(0, std::istream::end);
+    size_t file_size = inputstream.tellg();
+
     // read daily data from the specified subset of locations
     record.resize(location_id_subset.size());
     std::vector< std::vector<LocationPointerRecord> >::iterator record_iterator(record.begin());
     for (std::vector<uint64_t>::const_iterator location_id_iterator(location_id_subset.begin()); location_id_iterator != location_id_subset.end(); location_id_iterator++, record_iterator++)
     {
+      // there must be an entry for this id
+      if (*location_id_iterator >= location_count)
+	throw FormatExceptionUnexpectedDataSize();
+
       // entry in local offsets table for this id
       LocalOffsetRecord localoffset;
       memset(&localoffset, 0, sizeof(LocalOffsetRecord));
       inputstream.seekg(local_offset_table_start + size_t(*location_id_iterator)*sizeof(LocalOffsetRecord), std::istream::beg);
       inputstream.read((char*)&localoffset, sizeof(LocalOffsetRecord));
 
+      // the entry and the data it refers to must be within the file
+      if (!inputstream || localoffset.fileoffset > file_size || localoffset.count > (file_size - localoffset.fileoffset) / sizeof(LocationPointerRecord))
+	throw FormatExceptionUnexpectedDataSize();
+
       // corresponding output element
       std::vector<LocationPointerRecord>& current_record = *record_iterator;
 
@@ -67,7 +83,7 @@ namespace EUSTACE
       current_record.resize(localoffset.count);
 
       // read
-      inputstream.read((char*)&current_record[0], localoffset.count*sizeof(LocationPointerRecord));
+      inputstream.read((char*)current_record.data(), localoffset.count*sizeof(LocationPointerRecord));
     }
   }
 }
diff --git a/src/cpp/eustace/analysis/fileio/rawbinary.cpp b/src/cpp/eustace/analysis/fileio/rawbinary.cpp
index 0e27498..ad2718f 100644
--- a/src/cpp/eustace/analysis/fileio/rawbinary.cpp
+++ b/src/cpp/eustace/analysis/fileio/rawbinary.cpp
@@ -17,6 +17,10 @@ namespace EUSTACE
     char code_id[16];
     inputstream.read(code_id, sizeof(code_id));
 
+    // check header was there to read
+    if (!inputstream)
+      throw FormatExceptionBadHeader();
+
     // check format ID matches
     if (strncmp(file_format_id, FormatID(), 16) != 0)
       throw FormatExceptionBadHeader();
@@ -24,6 +28,10 @@ namespace EUSTACE
     
   size_t RawBinaryReader::NumEntriesRemaining(std::istream& inputstream, size_t entrysize) throw(FormatExceptionUnexpectedDataSize)
   {
+    // nothing can be counted if an earlier read went beyond end of file
+    if (!inputstream)
+      throw FormatExceptionUnexpectedDataSize();
+
     // seek to end and back to determine bytes remaining to end of file
     size_t startposition = inputstream.tellg();
     inputstream.seekg(0, std::ios::end);
@@ -110,7 +118,7 @@ namespace EUSTACE
 
     // allocate and read
     loc.Lookup().resize(num_entries);
-    inputstream.read((char*)&(loc.Lookup()[0]), num_entries * EntrySize());
+    inputstream.read((char*)loc.Lookup().data(), num_entries * EntrySize());
   }
 
   LocalCorrelationRangeRawBinaryReader::LocalCorrelationRangeRawBinaryReader() :
@@ -136,6 +144,6 @@ namespace EUSTACE
     
     // allocate and read
     ranges.resize(num_entries);
-    inputstream.read((char *)&ranges[0], num_entries * entrysize);
+    inputstream.read((char *)ranges.data(), num_entries * entrysize);
   }
 }
diff --git a/src/cpp/eustace/analysis/inputmanager.cpp b/src/cpp/eustace/analysis/inputmanager.cpp
index e2ccfe9..672187c 100644
--- a/src/cpp/eustace/analysis/inputmanager.cpp
+++ b/src/cpp/eustace/analysis/inputmanager.cpp
@@ -288,6 +288,10 @@ namespace EUSTACE
 	// read information
 	obsstream.read(observation_pointer, observation_data_element_size);
 
+	// check it was there to read
+	if (!obsstream)
+	  throw FormatExceptionUnexpectedDataSize();
+
 	// and increment output pointer ready to read next element
 	observation_pointer += observation_data_element_size;
       }
diff --git a/src/cpp/eustace/analysis/inputmanager.h b/src/cpp/eustace/analysis/inputmanager.h
index e582d6f..6b6ce94 100644
--- a/src/cpp/eustace/analysis/inputmanager.h
+++ b/src/cpp/eustace/analysis/inputmanager.h
@@ -172,7 +172,15 @@ namespace EUSTACE
       	return iter->second;
       DataT* newitem = new DataT;
       std::ifstream inputstream(pathname.c_str(), std::ios::binary);
-      Read(*newitem, inputstream);
+      try
+      {
+	Read(*newitem, inputstream);
+      }
+      catch (...)
+      {
+	delete newitem;
+	throw;
+      }
       inputstream.close();
       cache[pathname] = newitem;
       return newitem;
diff --git a/src/cpp/eustace/analysis/observationsource.h b/src/cpp/eustace/analysis/observationsource.h
index f14787a..0c7f43d 100644
--- a/src/cpp/eustace/analysis/observationsource.h
+++ b/src/cpp/eustace/analysis/observationsource.h
@@ -92,10 +92,10 @@ namespace EUSTACE
     { return entries.size(); }
 
     uint8_t* Bytes()
-    { return &entries[0]; }
+    { return entries.data(); }
 
     const uint8_t* Bytes() const
-    { return &entries[0]; }
+    { return entries.data(); }
 
     LocationLookupUUID& LocationLookupID()
     { return location_lookup_uuid; }
-- 
2.43.0


From 157f177b14282f4e775d69f4dbacb321c535aa4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:49:43 +0000
Subject: [PATCH 21/93] fix: the number of steps since the epoch was one too
 small when the last time of day is earlier than the first

---
 src/eustace/analysis/advanced_standard/fileio/step.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/eustace/analysis/advanced_standard/fileio/step.py b/src/eustace/analysis/advanced_standard/fileio/step.py
index d444e8f..4b12592 100644
--- a/src/eustace/analysis/advanced_standard/fileio/step.py
+++ b/src/eustace/analysis/advanced_standard/fileio/step.py
@@ -19,8 +19,7 @@ class StepDailyEpoch(StepDaily):
         
     def count(self):
         """Total operations."""
-        print int(self.timebase().datetime_to_number(self.end) - self.timebase().datetime_to_number(self.start)) + 1
-        return int(self.timebase().datetime_to_number(self.end) - self.timebase().datetime_to_number(self.start)) + 1
+        return self.index_at_time(self.end) - self.index_at_time(self.start) + 1
 
     def timebase(self):
         return TimeBaseDays(EPOCH)
-- 
2.43.0


From c11786496602c20ef4c86e40357bd595f70df86b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:00:10 +0000
Subject: [PATCH 22/93] fix: satellite pixels up to one cell below the start of
 an axis were counted in its first cell

---
 src/eustace/satgrid/grid.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/eustace/satgrid/grid.py b/src/eustace/satgrid/grid.py
index 399ea7a..9c1995e 100644
--- a/src/eustace/satgrid/grid.py
+++ b/src/eustace/satgrid/grid.py
@@ -17,7 +17,7 @@ class GridAxis(object):
 
     def compute_indices(self, values):
         """Determine the integer indices along this axis at which the given axis values are located."""
-        bin_indices = ((values - self.start) / self.increment).astype(numpy.int32)
+        bin_indices = numpy.floor((values - self.start) / self.increment).astype(numpy.int32)
         if self.wrap:
             wrapped = (bin_indices == numpy.int32(self.length)).nonzero()
             bin_indices[wrapped] = 0
-- 
2.43.0


From 761d3d941e3e9461feea8f5c9c2a5292b8f0524c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:03:33 +0000
Subject: [PATCH 23/93] fix: satellite pixels up to one cell below the start of
 an axis were counted in its first cell by the iris pipeline

---
 src/eustace/satgrid_iris/gridbin/gridfieldlist.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/eustace/satgrid_iris/gridbin/gridfieldlist.py b/src/eustace/satgrid_iris/gridbin/gridfieldlist.py
index 8874da5..1b573db 100644
--- a/src/eustace/satgrid_iris/gridbin/gridfieldlist.py
+++ b/src/eustace/satgrid_iris/gridbin/gridfieldlist.py
@@ -29,7 +29,7 @@ class GridFieldAxis(object):
     def compute_indices(self, values):
         """Indices along this axis at which the given axis values are located."""
 
-        bin_indices = (((values - self.zeroth) / self.step) - 0.5).astype(INDEXTYPE)
+        bin_indices = numpy.floor(((values - self.zeroth) / self.step) - 0.5).astype(INDEXTYPE)
         if self.circular:
             wrapped = (bin_indices == INDEXTYPE(self.count)).nonzero()
             bin_indices[wrapped] = 0
-- 
2.43.0


From f7b31ae47df14ef759e331d25ae720779b708758 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:04:41 +0000
Subject: [PATCH 24/93] fix: missing satellite pixels with valid quality flags
 were gridded as their fill value

---
 src/eustace/satgrid/file_aggregate_grid.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/eustace/satgrid/file_aggregate_grid.py b/src/eustace/satgrid/file_aggregate_grid.py
index 1225f44..9ae13e3 100644
--- a/src/eustace/satgrid/file_aggregate_grid.py
+++ b/src/eustace/satgrid/file_aggregate_grid.py
@@ -62,12 +62,21 @@ class SatelliteFileAggregator(object):
         # Grid for two-pass variance calculation
         self.devsqgrid = AggregateGridSumDevSq(self.grid.dimensions)
 
+    def get_valid_indices(self, satfile):
+        """Indices of pixels with valid flags at which neither the observation nor its uncertainties are missing."""
+
+        valid_indices = satfile.get_indices_from_qc(self.qc_mask_valid, self.qc_filter_valid)
+        for suffix in ['', '_unc_ran', '_unc_loc_atm', '_unc_loc_sfc']:
+            missing = numpy.ma.getmaskarray(satfile.get_variable(self.observation_name + suffix))
+            valid_indices = valid_indices[numpy.logical_not(missing.flat[valid_indices])]
+        return valid_indices
+
     def aggregate_file(self, satfile):
         """Aggregate the specified file."""
 
         # indices for valid data, variable at those points, and lat/lon coords
         # at those points
-        valid_indices = satfile.get_indices_from_qc(self.qc_mask_valid, self.qc_filter_valid)
+        valid_indices = self.get_valid_indices(satfile)
         observations = satfile.get_variable_at_indices(self.observation_name, valid_indices)
         uncertainty_random = satfile.get_variable_at_indices(self.observation_name + '_unc_ran', valid_indices)
         uncertainty_local_atm = satfile.get_variable_at_indices(self.observation_name + '_unc_loc_atm', valid_indices)
@@ -91,7 +100,7 @@ class SatelliteFileAggregator(object):
     def aggregate_file_second_order(self, fields0, satfile):
         """Aggregate for second-order fields, having already run once."""
 
-        valid_indices = satfile.get_indices_from_qc(self.qc_mask_valid, self.qc_filter_valid)
+        valid_indices = self.get_valid_indices(satfile)
         obs = satfile.get_variable_at_indices(self.observation_name, valid_indices)
         grid_bin_obs_mean = fields0['tsmean']
         coord_lat = satfile.get_variable_at_indices('lat', valid_indices)
-- 
2.43.0


From 86aa365b69198ca05c1a2b44d62d9a071e33201a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:08:29 +0000
Subject: [PATCH 25/93] fix: the random uncertainty of cells with more than
 46340 pixels was not a number

---
 src/eustace/satgrid/aggregate_grid.py | 6 ++----
 src/eustace/satgrid_iris/pipeline.py  | 2 +-
 2 files changed, 3 insertions(+), 5 deletions(-)

diff --git a/src/eustace/satgrid/aggregate_grid.py b/src/eustace/satgrid/aggregate_grid.py
index 7fbe963..97d0200 100644
--- a/src/eustace/satgrid/aggregate_grid.py
+++ b/src/eustace/satgrid/aggregate_grid.py
@@ -178,8 +178,7 @@ class AggregateGridArray(AggregateGrid):
             valid_indices] = self.count[valid_indices]
 
         fields['tsmean_unc_ran'][valid_indices] = \
-            numpy.sqrt(self.uncertainty_random_sum_sq[valid_indices] /
-                       (self.count[valid_indices] * self.count[valid_indices]))
+            numpy.sqrt(self.uncertainty_random_sum_sq[valid_indices]) / self.count[valid_indices]
 
         fields['tsmean_unc_loc_atm'][valid_indices] = \
             numpy.sqrt(self.uncertainty_local_atm_sum_sq[valid_indices] /
@@ -264,8 +263,7 @@ class AggregateGridCountSumMinMax(AggregateGrid):
         fields['ts_number_of_observations'][valid_indices] = self.count[valid_indices]
 
         fields['tsmean_unc_ran'][valid_indices] = \
-            numpy.sqrt(self.uncertainty_random_sum_sq[valid_indices] /
-                       (self.count[valid_indices] * self.count[valid_indices]))
+            numpy.sqrt(self.uncertainty_random_sum_sq[valid_indices]) / self.count[valid_indices]
 
         fields['tsmean_unc_loc_atm'][valid_indices] = \
             numpy.sqrt(self.uncertainty_local_atm_sum_sq[valid_indices] /
diff --git a/src/eustace/satgrid_iris/pipeline.py b/src/eustace/satgrid_iris/pipeline.py
index dd45154..c0894b0 100644
--- a/src/eustace/satgrid_iris/pipeline.py
+++ b/src/eustace/satgrid_iris/pipeline.py
@@ -55,7 +55,7 @@ class PostProcessRandomError(object):
         
     def run(self, bins):
         countvalid = bins.get_field(self.var_name_count).data
-        errorfield = numpy.ma.sqrt(bins.get_field(self.var_name_sumsq).data / (countvalid * countvalid), dtype=self.fieldoutput.dtype)
+        errorfield = (numpy.ma.sqrt(bins.get_field(self.var_name_sumsq).data) / countvalid).astype(self.fieldoutput.dtype)
         bins.create_field(self.fieldoutput, errorfield)
 
 class PostProcessRMS(object):
-- 
2.43.0


From 2ef7955a1db42a7bedc70789dbd598b30c284adc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:09:18 +0000
Subject: [PATCH 26/93] Revert the mid-month step repair: files under examples
 stay as they are

---
 .../analysis/advanced_standard/examples/stepmidmonth.py       | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/eustace/analysis/advanced_standard/examples/stepmidmonth.py b/src/eustace/analysis/advanced_standard/examples/stepmidmonth.py
index 9b9efb6..7f3fdbc 100644
--- a/src/eustace/analysis/advanced_standard/examples/stepmidmonth.py
+++ b/src/eustace/analysis/advanced_standard/examples/stepmidmonth.py
@@ -24,8 +24,8 @@ class StepMidMonth(Step):
         """Compute the mid-point of given month number since epoch and return as datetime object.
            This is needed because HadCRUT4 uses midmonth values on the time axis."""
 
-        epochtime = datetime_numeric.parse(self.epoch)
-        total = 12*epochtime.year + (epochtime.month - 1) + operationindex
+        year = datetime_numeric.parse(self.epoch).year
+        total = 12*year + operationindex
         t0 = datetime(total / 12, 1 + (total % 12), 1)
         t1 = datetime((total + 1)/12, 1 + ((total + 1) % 12), 1)
         halfmonth = (t1 - t0) / 2
-- 
2.43.0


From 33de67c61067efc261ade8d8e6e2c245e6b2941a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:12:37 +0000
Subject: [PATCH 27/93] fix: satellite files without missing temperatures or
 with an unmasked scalar could not be loaded

---
 src/eustace/satgrid_iris/satellite.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/eustace/satgrid_iris/satellite.py b/src/eustace/satgrid_iris/satellite.py
index 46680d8..0f1d5b4 100644
--- a/src/eustace/satgrid_iris/satellite.py
+++ b/src/eustace/satgrid_iris/satellite.py
@@ -113,23 +113,24 @@ class SatelliteCollection(object):
 	# Append to primary cube as aux variables and check it covers known data
         for cube in cubes_aux_field:
             if hasattr(cube.data, 'mask'):
-                missing_aux_pixels = numpy.sum(numpy.logical_and(numpy.logical_not(cube_primary.data.mask), cube.data.mask))
+                primary_mask = numpy.ma.getmaskarray(cube_primary.data)
+                missing_aux_pixels = numpy.sum(numpy.logical_and(numpy.logical_not(primary_mask), cube.data.mask))
                 if missing_aux_pixels:		    
-                    original_pixel_count = numpy.sum(numpy.logical_not(cube_primary.data.mask))
+                    original_pixel_count = numpy.sum(numpy.logical_not(primary_mask))
                     message = 'Auxiliary field {0} does not cover primary field {1} with {2}/{3} pixels affected'.format(
                         cube.var_name, cube_primary.var_name, missing_aux_pixels, original_pixel_count)
                     # raise ValueError(message) # original behaviour was to generate an error here
                     # but instead restrict coverage to items with all fields valid
                     sys.stderr.write('WARNING: ' + message + ': removing those pixels\n')
-                    cube_primary.data.mask |= cube.data.mask
+                    cube_primary.data = numpy.ma.masked_array(cube_primary.data, mask=numpy.logical_or(primary_mask, cube.data.mask))
             cube_primary.add_aux_coord(AuxCoord(points=cube.data, var_name=cube.var_name), (0,1))
 	    
         # Append scalar values to primary cube (unless masked)
         for cube in cubes_aux_scalar:
             if hasattr(cube.data, 'mask'):
-                if cube.data.mask[0]:
+                if numpy.ma.getmaskarray(cube.data)[0]:
                     # Aux scalar is unexpectedly masked
-                    pixels_affected = numpy.sum(numpy.logical_not(cube_primary.data.mask))
+                    pixels_affected = numpy.sum(numpy.logical_not(numpy.ma.getmaskarray(cube_primary.data)))
                     if pixels_affected:
                         # If there were supposed to be any valid measurement pixels, raise an error here
                         message = 'Auxiliary scalar {0} is masked out with {1} pixels affected'.format(cube.var_name, pixels_affected)
-- 
2.43.0


From 35675c92995b28f57be1e403d6ee0891d1fce374 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:12:37 +0000
Subject: [PATCH 28/93] fix: only the first value of inputs without missing
 values was put on the grid

---
 src/eustace/satgrid_iris/gridbin/gridbin.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/eustace/satgrid_iris/gridbin/gridbin.py b/src/eustace/satgrid_iris/gridbin/gridbin.py
index dd406fd..789ce3f 100644
--- a/src/eustace/satgrid_iris/gridbin/gridbin.py
+++ b/src/eustace/satgrid_iris/gridbin/gridbin.py
@@ -60,7 +60,7 @@ class GridBins(GridFieldList):
            Assumes input coordinate axis names match output grid unless input_coordinate_names specified."""
 
         # Use alternative mask if specified, otherwise input mask
-        mask = alternative_mask if (alternative_mask is not None) else inputcube.data.mask
+        mask = alternative_mask if (alternative_mask is not None) else numpy.ma.getmaskarray(inputcube.data)
 
         # Indices into flat input arrays which contain unmasked data
         mapfrom = numpy.nonzero(numpy.ravel(mask) == False)[0].astype(INDEXTYPE)
-- 
2.43.0


From 3b0a62cbf09e098e9ed0e15716198c315bd0d0c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:14:53 +0000
Subject: [PATCH 29/93] fix: binary files ending within a record were read as
 if complete

---
 .../fileio/observationsource_rawbinary.py     | 22 ++++++++++++++++---
 1 file changed, 19 insertions(+), 3 deletions(-)

diff --git a/src/eustace/analysis/fileio/observationsource_rawbinary.py b/src/eustace/analysis/fileio/observationsource_rawbinary.py
index bee439f..8a32c99 100644
--- a/src/eustace/analysis/fileio/observationsource_rawbinary.py
+++ b/src/eustace/analysis/fileio/observationsource_rawbinary.py
@@ -67,6 +67,22 @@ class RawBinaryReader(object):
 
         return count
 
+    @staticmethod
+    def read_remaining(file_handle, dtype):
+        """Read all records between current position in stream and end of stream, which must be whole records."""
+
+        # measure data size by seeking to end and back
+        start_offset = file_handle.tell()
+        file_handle.seek(0, 2)
+        total_size_bytes = file_handle.tell() - start_offset
+        file_handle.seek(start_offset)
+
+        # check for part of a record at end
+        if total_size_bytes % numpy.dtype(dtype).itemsize != 0:
+            raise Exception('Unexpected size of data: {0} bytes'.format(total_size_bytes))
+
+        return numpy.fromfile(file_handle, dtype=dtype)
+
 class RawBinaryLocationCategoryReader(RawBinaryReader):
 
     def __init__(self, formatid, basecategory):
@@ -131,7 +147,7 @@ class ObservationRawBinaryReader(RawBinaryLocationCategoryReader):
         location_uuid = self.read_header_from_stream(file_handle)
 
         # read data
-        contents = numpy.fromfile(file_handle, dtype=ObservationRawBinaryWriter.build_dtype(self.basecategory, self.num_local_correlation_ranges))
+        contents = self.read_remaining(file_handle, ObservationRawBinaryWriter.build_dtype(self.basecategory, self.num_local_correlation_ranges))
 
 	# close it
         file_handle.close()
@@ -292,7 +308,7 @@ class LocationLookupRawBinaryReader(RawBinaryLocationCategoryReader):
         location_uuid = self.read_header_from_stream(file_handle)
 
         # read data
-        data = numpy.fromfile(file_handle, dtype=DTYPE[ CATEGORY_LOCATION_LOOKUP ])
+        data = self.read_remaining(file_handle, DTYPE[ CATEGORY_LOCATION_LOOKUP ])
         lookuptable = numpy.vstack([ data['latitude'], data['longitude'] ])
 
         # done
@@ -349,7 +365,7 @@ class LocalCorrelationRangeRawBinaryReader(RawBinaryReader):
         self.read_header_from_stream(file_handle)
 
         # read data
-        result = numpy.fromfile(file_handle, dtype=DTYPE[ CATEGORY_LOCAL_CORRELATION_RANGE ])
+        result = self.read_remaining(file_handle, DTYPE[ CATEGORY_LOCAL_CORRELATION_RANGE ])
 
         # done with file
         file_handle.close()
-- 
2.43.0


From 011d93d1ce4e1cf6cde5a4889c252ef8c3dbf095 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:14:53 +0000
Subject: [PATCH 30/93] fix: daily observations of another location table were
 read without verifying its identifier

---
 src/eustace/analysis/fileio/observationsource_rawbinary.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/eustace/analysis/fileio/observationsource_rawbinary.py b/src/eustace/analysis/fileio/observationsource_rawbinary.py
index 8a32c99..8611cdf 100644
--- a/src/eustace/analysis/fileio/observationsource_rawbinary.py
+++ b/src/eustace/analysis/fileio/observationsource_rawbinary.py
@@ -146,6 +146,10 @@ class ObservationRawBinaryReader(RawBinaryLocationCategoryReader):
         # get uuid
         location_uuid = self.read_header_from_stream(file_handle)
 
+        # check it matches the one given for verification
+        if location_uuid != verify_location_uuid:
+            raise Exception('Location UUID mismatch')
+
         # read data
         contents = self.read_remaining(file_handle, ObservationRawBinaryWriter.build_dtype(self.basecategory, self.num_local_correlation_ranges))
 
-- 
2.43.0


From 07f12d60d58e0432b14b44ff5d13521415d35a1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:14:53 +0000
Subject: [PATCH 31/93] fix: the location pointer reader used an undefined name
 and arrays as file positions

---
 src/eustace/analysis/fileio/locationpointers.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/eustace/analysis/fileio/locationpointers.py b/src/eustace/analysis/fileio/locationpointers.py
index 309c695..b70bb8c 100644
--- a/src/eustace/analysis/fileio/locationpointers.py
+++ b/src/eustace/analysis/fileio/locationpointers.py
@@ -6,6 +6,7 @@ from observationsource_rawbinary import ObservationRawBinaryWriter
 from observationsource_rawbinary import LocalCorrelationRangeRawBinaryReader
 from observationsource_rawbinary import CATEGORY_OBSERVATION
 import numpy
+import uuid
 
 FORMATID_LOCATION_POINTERS = 'EUSTACELOCP00001'
 """Format identifier placed at start of correlated uncertainty binary files."""
@@ -119,7 +120,7 @@ class LocationPointersRawBinaryReader(object):
             raise Exception('Location UUID mismatch')
 
         # read count
-        location_count = numpy.fromfile(file_handle, dtype=numpy.uint64, count=1)
+        location_count = int(numpy.fromfile(file_handle, dtype=numpy.uint64, count=1)[0])
 
         # check locaton_id in range
         if (location_id < 0) or (location_id >= location_count):
@@ -129,8 +130,8 @@ class LocationPointersRawBinaryReader(object):
         file_handle.seek(16 * location_id, 1)   # The 1 here indicates seek from current position
 
         # read offset table info
-        record_offset = numpy.fromfile(file_handle, dtype=numpy.uint64, count=1)
-        record_count = numpy.fromfile(file_handle, dtype=numpy.uint64, count=1)
+        record_offset = int(numpy.fromfile(file_handle, dtype=numpy.uint64, count=1)[0])
+        record_count = int(numpy.fromfile(file_handle, dtype=numpy.uint64, count=1)[0])
 
         # seek to offset
         file_handle.seek(record_offset)
-- 
2.43.0


From d6d557b6a264a8795a647249cd0ffbaf5e55a945 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:14:53 +0000
Subject: [PATCH 32/93] fix: the source of missing observations referred to an
 undefined attribute

---
 src/eustace/analysis/fileio/observationsource_missing.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/eustace/analysis/fileio/observationsource_missing.py b/src/eustace/analysis/fileio/observationsource_missing.py
index a4b31d8..c1042f2 100644
--- a/src/eustace/analysis/fileio/observationsource_missing.py
+++ b/src/eustace/analysis/fileio/observationsource_missing.py
@@ -23,7 +23,7 @@ class ObservationSourceMissing(ObservationSource):
     def observations(self, observable):
         """Retrieve observations for specified observable quantity."""
         
-        if self.missing_observable == observable:
+        if observable in self.missing_observables:
             # return as Observations object
             return ObservationsMissing(None)
         else:
-- 
2.43.0


From c587be76e99312636af839d1f754aaa079779274 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:20:14 +0000
Subject: [PATCH 33/93] fix: the altitude adjustment of in-situ land data
 without hold-out list was used as hold-out list

---
 src/eustace/analysis/preparedailyfixed.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/eustace/analysis/preparedailyfixed.py b/src/eustace/analysis/preparedailyfixed.py
index 3062faa..b5f1615 100644
--- a/src/eustace/analysis/preparedailyfixed.py
+++ b/src/eustace/analysis/preparedailyfixed.py
@@ -37,7 +37,7 @@ def run_day(outputfilename, locationfilename, dailyfilename, processdate, source
     if sourcename == SOURCE_INSITU_LAND:
         # special case for land to load only data relevant to given day number
         if hold_out_list == None:
-            source = SOURCECLASS[sourcename](dailyfilename, daynumber, altitude_adjustment)
+            source = SOURCECLASS[sourcename](dailyfilename, daynumber, altitude_adjustment=altitude_adjustment)
         else:
             source = SOURCECLASS[sourcename](dailyfilename, daynumber, hold_out_list, altitude_adjustment)
         
-- 
2.43.0


From 5111d8d451d36a845805b5eb79ef1d059b966ac0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:20:14 +0000
Subject: [PATCH 34/93] fix: days without observations could not be prepared as
 binary files

---
 src/eustace/analysis/preparedailyfixed.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/eustace/analysis/preparedailyfixed.py b/src/eustace/analysis/preparedailyfixed.py
index b5f1615..c736c5b 100644
--- a/src/eustace/analysis/preparedailyfixed.py
+++ b/src/eustace/analysis/preparedailyfixed.py
@@ -52,7 +52,7 @@ def run_day(outputfilename, locationfilename, dailyfilename, processdate, source
     # Verify location
     mylocation = source.observation_location_lookup()
     location_difference = (reference_location.lookuptable[:,dailydata.location] - mylocation[:,dailydata.location])
-    if max(abs(location_difference.ravel())) > 0.0001:
+    if numpy.any(abs(location_difference) > 0.0001):
         raise ValueError('location mismatch:\nexpected:\n{0}\ngot:\n{1}'
                          .format(str(reference_location.lookuptable[:,dailydata.location]), str(mylocation[:,dailydata.location])))
 
-- 
2.43.0


From f219e9be17e945ab0d0e3826af3a35e455a9d7ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:24:54 +0000
Subject: [PATCH 35/93] fix: break points of files without missing likelihoods
 were read as arrays of two dimensions

---
 src/eustace/preprocess/fileio/insitu_land_breakpoints.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/src/eustace/preprocess/fileio/insitu_land_breakpoints.py b/src/eustace/preprocess/fileio/insitu_land_breakpoints.py
index cb6fb7e..8180f93 100644
--- a/src/eustace/preprocess/fileio/insitu_land_breakpoints.py
+++ b/src/eustace/preprocess/fileio/insitu_land_breakpoints.py
@@ -69,10 +69,7 @@ class ObservationBreakPointSourceInsituLand(ObservationSource):
 
         break_likelihood = self.dataset.variables[ObservationBreakPointSourceInsituLand.OBSERVATIONMAPS[observable]['break_likelihood'].name]
 
-        if hasattr(break_likelihood[:],'mask'):
-            likelihood_mask = ~break_likelihood[:].mask
-        else:
-            likelihood_mask = numpy.broadcast_to(numpy.array([True]),break_likelihood[:].shape)
+        likelihood_mask = ~numpy.ma.getmaskarray(break_likelihood[:])
 
         parameters = {}
         keys = ObservationBreakPointSourceInsituLand.OBSERVATIONMAPS[observable].keys()
-- 
2.43.0


From 5fb3752328d32134de6cfb1407d3282276bc7ca3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:24:54 +0000
Subject: [PATCH 36/93] fix: the kernel deciding which break points to keep was
 computed in half precision

---
 src/eustace/analysis/observationsource.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/eustace/analysis/observationsource.py b/src/eustace/analysis/observationsource.py
index e90e2ac..1b7fc1e 100644
--- a/src/eustace/analysis/observationsource.py
+++ b/src/eustace/analysis/observationsource.py
@@ -159,7 +159,7 @@ class ObservationsBreakPoints(object):
 	"""Filter information on breaking points by using a Gaussian smoothing kernel: the kernel depends on the distance between the maximal likelihood value (127), and the actual likelihood value.
            The rejection is then applied by filtering out those points with kernel smaller than a given threshold"""
 
-	gaussian_kernels = numpy.exp(-decay_constant*numpy.abs(self.break_likelihood-127))
+	gaussian_kernels = numpy.exp(-decay_constant*numpy.abs(self.break_likelihood.astype(numpy.float64)-127))
 	indices_to_keep = numpy.argwhere(gaussian_kernels >= threshold)
 	indices_to_keep = indices_to_keep.reshape(indices_to_keep.shape[0],)
         self.break_time = self.break_time[indices_to_keep]
-- 
2.43.0


From 0669b1e4d3fd0977d98ed4d389b6e88286381562 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:24:54 +0000
Subject: [PATCH 37/93] fix: observations were given bias terms of other
 stations or periods unless breaks and observations were ordered by station
 and time

---
 .../observation_source_surface_effects.py      | 18 +++++++-----------
 1 file changed, 7 insertions(+), 11 deletions(-)

diff --git a/src/eustace/analysis/advanced_standard/fileio/observation_source_surface_effects.py b/src/eustace/analysis/advanced_standard/fileio/observation_source_surface_effects.py
index b3b3451..c444769 100644
--- a/src/eustace/analysis/advanced_standard/fileio/observation_source_surface_effects.py
+++ b/src/eustace/analysis/advanced_standard/fileio/observation_source_surface_effects.py
@@ -67,20 +67,16 @@ def insitu_land_covariate_effect(time, station_indices, observed_breakpoints):
     break_stations     = break_stations[time_differences > 0]
     time_differences   = time_differences[time_differences > 0]
 
-    # The most recent adjustment period is that corresponding to a change of station number in the subsetted break_stations
-    most_recent_adjustment = break_stations!=numpy.roll(break_stations,1)
-    if len( most_recent_adjustment ) > 0 and numpy.sum( most_recent_adjustment ) == 0:
-        # only one station selected so find the most recent adjustment as the smallest time difference
-        # rather than from changes in station indexes
-        most_recent_adjustment = [numpy.argmin(time_differences),]
-    
-    # extract the indices to the most recent active adjustments/state variables and the corresponding stations indices
-    active_adjustment_indices = adjustment_indices[most_recent_adjustment]
-    corresponding_stations_indices     = break_stations[most_recent_adjustment]
+    # The most recent adjustment period of each station is that with the smallest time difference
+    order = numpy.lexsort((time_differences, break_stations))
+    corresponding_stations_indices, first = numpy.unique(break_stations[order], return_index=True)
+
+    # extract the indices to the most recent active adjustments/state variables
+    active_adjustment_indices = adjustment_indices[order][first]
 
     # map affected station inds in corresponding_stations_indices to the input station_indices
     station_restriction = numpy.nonzero( numpy.isin(station_indices, corresponding_stations_indices) )[0]
-    break_restriction = numpy.nonzero( numpy.isin(corresponding_stations_indices, station_indices) )[0]
+    break_restriction = numpy.searchsorted(corresponding_stations_indices, numpy.asarray(station_indices)[station_restriction])
     
     # construct bias effect
     effect = numpy.column_stack( ( station_restriction, active_adjustment_indices[break_restriction] ) )
-- 
2.43.0


From 3e28d09aef4489cc14bc16a00837f4d975fd7b7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:29:58 +0000
Subject: [PATCH 38/93] fix: the smallest uncertainty of a diagnostic cell was
 chosen by comparing observations

---
 src/eustace/analysis/diagnosticgrid_aggregate.pyx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/eustace/analysis/diagnosticgrid_aggregate.pyx b/src/eustace/analysis/diagnosticgrid_aggregate.pyx
index 4b1da35..c267337 100644
--- a/src/eustace/analysis/diagnosticgrid_aggregate.pyx
+++ b/src/eustace/analysis/diagnosticgrid_aggregate.pyx
@@ -33,7 +33,7 @@ def diagnosticgrid_aggregate(
             observation_min[gridindex] = obs
         if obs > observation_max[gridindex]:
             observation_max[gridindex] = obs
-        if obs < uncertainty_min[gridindex]:
+        if unc < uncertainty_min[gridindex]:
             uncertainty_min[gridindex] = unc
         if unc > uncertainty_max[gridindex]:
             uncertainty_max[gridindex] = unc
-- 
2.43.0


From c9519a8cffc3c726606a4c3f54a1234d9221449f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:29:58 +0000
Subject: [PATCH 39/93] fix: diagnostics of a day on which a source has no
 observations failed

---
 src/eustace/analysis/diagnostic_combine.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/eustace/analysis/diagnostic_combine.py b/src/eustace/analysis/diagnostic_combine.py
index 40f5ed6..d38a0f0 100644
--- a/src/eustace/analysis/diagnostic_combine.py
+++ b/src/eustace/analysis/diagnostic_combine.py
@@ -81,5 +81,8 @@ def print_stats(source, sourcename, observable):
     """Write basic stats to standard output"""
 
     obs = source.observations(observable).measurement
+    if len(obs) == 0:
+        print 'no observations ({0}:{1})'.format(sourcename, observable)
+        return
     print 'min({0}:{1}): {2}'.format(sourcename, observable, min(obs))
     print 'max({0}:{1}): {2}'.format(sourcename, observable, max(obs))
-- 
2.43.0


From 708efea29f766737b00946355dedaa24e97e9bcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:29:58 +0000
Subject: [PATCH 40/93] fix: inspectinput took satellite ocean observations for
 mobile ones

---
 src/eustace/analysis/inspectinput.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/eustace/analysis/inspectinput.py b/src/eustace/analysis/inspectinput.py
index 215b44f..b1d8ef4 100644
--- a/src/eustace/analysis/inspectinput.py
+++ b/src/eustace/analysis/inspectinput.py
@@ -16,6 +16,7 @@ LOCATIONLOOKUP_SATELLITE = 'locationlookup_satellite.bin'
 LOCATIONLOOKUP_INSITU_LAND = 'locationlookup_insitu_land.bin'
 FIXEDLOCATIONLOOKUP = {
     'surfaceairmodel_land': LOCATIONLOOKUP_SATELLITE,
+    'surfaceairmodel_ocean': LOCATIONLOOKUP_SATELLITE,
     'surfaceairmodel_lake': LOCATIONLOOKUP_SATELLITE,
     'surfaceairmodel_ice': LOCATIONLOOKUP_SATELLITE,
     'insitu_land': LOCATIONLOOKUP_INSITU_LAND
-- 
2.43.0


From 7c4ebce382c95325ea0515c413d459b12f6fbcdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:37:33 +0000
Subject: [PATCH 41/93] fix: points located with spherical coordinates were put
 in triangles that do not contain them

---
 src/eustace/analysis/mesh/locator.py | 17 ++++++++---------
 1 file changed, 8 insertions(+), 9 deletions(-)

diff --git a/src/eustace/analysis/mesh/locator.py b/src/eustace/analysis/mesh/locator.py
index aab805f..262692b 100644
--- a/src/eustace/analysis/mesh/locator.py
+++ b/src/eustace/analysis/mesh/locator.py
@@ -97,24 +97,23 @@ class TriangleLocatorHierarchical(TriangleLocator):
         # initialise triangle numbers
         trianglenumbers = numpy.uint64(top_level_indices) << MeshIcosahedron.BASE_HASH_SHIFT
 
-        # evaluate barycentres (planar geometry)
-        barycentres = evaluation_method(point0, point1, point2, v)
-
         # and now perform repeated subdivision to get finest possible triangle number
         for i in range(1, int(levels) + 1):
 
-            # find the subdivision number for each barycentre
-            subnumbers = TriangleLocatorHierarchical.triangle_barycentre_subdivision_number(barycentres)
+            # find the subdivision number for each point (the sub-triangles meet where
+            # coordinates in planar geometry are one half, whichever evaluation method is used)
+            subnumbers = TriangleLocatorHierarchical.triangle_barycentre_subdivision_number(
+                barycentric_coordinates_planar(point0, point1, point2, v))
 
             # update points accordingly
             TriangleLocatorHierarchical.triangle_points_to_subtriangle(point0, point1, point2, subnumbers)
 
-            # re-evaluate barycentres with new points
-            barycentres = evaluation_method(point0, point1, point2, v)
-
             # update triangle numbers
             trianglenumbers = trianglenumbers | (subnumbers << (MeshIcosahedron.BASE_HASH_SHIFT -  numpy.uint64(2*i)))
-    
+
+        # evaluate barycentres in the final triangles
+        barycentres = evaluation_method(point0, point1, point2, v)
+
         return trianglenumbers, barycentres
 
     @staticmethod
-- 
2.43.0


From 6f6e26841fd3d1406161dffff05b62c7832cee43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:39:46 +0000
Subject: [PATCH 42/93] fix: the partial inverse was wrong where elements of
 the Cholesky factor cancel to zero

---
 src/eustace/analysis/advanced_standard/linalg/qinv.pyx | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/eustace/analysis/advanced_standard/linalg/qinv.pyx b/src/eustace/analysis/advanced_standard/linalg/qinv.pyx
index 47bf74d..93b220f 100644
--- a/src/eustace/analysis/advanced_standard/linalg/qinv.pyx
+++ b/src/eustace/analysis/advanced_standard/linalg/qinv.pyx
@@ -53,7 +53,9 @@ def Q_inv(Q, fQ = None):
     cdef cITYPE [:] L_indptr  = Lp.indptr
 
     # initialise output non-zero pattern based on that of the cholesky factor
-    Sigma_tilde = Lp + Lp.T
+    # (elements of the factor which are stored but happen to be zero are part of it)
+    pattern = scipy.sparse.csc_matrix((np.ones(Lp.data.shape), Lp.indices, Lp.indptr), shape=Lp.shape)
+    Sigma_tilde = pattern + pattern.T
     if not Sigma_tilde.has_sorted_indices:
         Sigma_tilde.sort_indices()
     
-- 
2.43.0


From 79acfb68774bb767f5b9ab17e84bcbabc8a87c6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:39:46 +0000
Subject: [PATCH 43/93] fix: the error for matrices with empty rows referred to
 an undefined variable

---
 src/eustace/analysis/advanced_standard/linalg/pardisowrapper.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/eustace/analysis/advanced_standard/linalg/pardisowrapper.py b/src/eustace/analysis/advanced_standard/linalg/pardisowrapper.py
index 6994112..a209fab 100644
--- a/src/eustace/analysis/advanced_standard/linalg/pardisowrapper.py
+++ b/src/eustace/analysis/advanced_standard/linalg/pardisowrapper.py
@@ -149,7 +149,7 @@ class PardisoWrapper(SolverLibraryWrapper):
         # pardiso with a matrix A that contains empty rows leads to a segfault, same applies for csc with 
         # empty columns
         if not numpy.diff(A.indptr).all():
-            raise ValueError('Matrix A is singular, because it contains empty row(s)'.format(row_col))
+            raise ValueError('Matrix A is singular, because it contains empty row(s)')
 
         # check floating point is 64-bit
         if A.dtype != numpy.float64:
-- 
2.43.0


From 677915f092a6819a08ac67a18ef9301e550c649c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:39:46 +0000
Subject: [PATCH 44/93] fix: traces and marginal variances from the partial
 inverse used names that were not imported

---
 src/eustace/analysis/advanced_standard/linalg/sparse.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/eustace/analysis/advanced_standard/linalg/sparse.py b/src/eustace/analysis/advanced_standard/linalg/sparse.py
index 05f2251..6d2cbee 100644
--- a/src/eustace/analysis/advanced_standard/linalg/sparse.py
+++ b/src/eustace/analysis/advanced_standard/linalg/sparse.py
@@ -1,6 +1,8 @@
 """Sparse matrix operations"""
 
 import numpy
+import scipy.sparse
+import sksparse.cholmod as cholmod
 import qinv
 
 def trace_iQ_dQdp(Q, dQdp, fQ = None, iQp = None):
@@ -44,12 +46,10 @@ def marginal_variance_Q_inv(Q, A = None):
         # The following operation is only correct if the non zero indices of A.T * A are a subset of
         # the non-zero elements of Q_inv so check that this condition is true before proceeding. 
         
-        from sets import Set
-        
         (P_i, P_j, P_v) = scipy.sparse.find(Q_inv)
         (AtA_i, AtA_j, AtA_v) = scipy.sparse.find(A.T * A)
-        Q_inv_non_zero = Set( zip(P_i, P_j) )
-        AtA_non_zero = Set( zip(AtA_i, AtA_j) )
+        Q_inv_non_zero = set( zip(P_i, P_j) )
+        AtA_non_zero = set( zip(AtA_i, AtA_j) )
         
         AtA_non_zero.issubset(Q_inv_non_zero)
         
-- 
2.43.0


From 3f83a8401fc62d3f8e3c64f8a11cd271069d2bbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:45:27 +0000
Subject: [PATCH 45/93] fix: lattices with different numbers of nodes per
 dimension could not be built

---
 .../analysis/advanced_standard/stats/spde/lattice.py       | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/eustace/analysis/advanced_standard/stats/spde/lattice.py b/src/eustace/analysis/advanced_standard/stats/spde/lattice.py
index 9d1ff75..e0d2072 100644
--- a/src/eustace/analysis/advanced_standard/stats/spde/lattice.py
+++ b/src/eustace/analysis/advanced_standard/stats/spde/lattice.py
@@ -143,7 +143,12 @@ class LatticeMesh(object):
         
         
         axis_coordinates = [np.linspace(this_dim[0], this_dim[1], n_nodes) for this_dim, n_nodes in zip(self.node_bounds.T, self.number_of_nodes_per_dimension )  ]
-        self.axis_coordinates = np.array(axis_coordinates).T
+        if np.unique(self.number_of_nodes_per_dimension).size > 1:
+            # different numbers of nodes per dimension do not form a rectangular array
+            self.axis_coordinates = np.empty(self.n_dims, dtype=object)
+            self.axis_coordinates[:] = axis_coordinates
+        else:
+            self.axis_coordinates = np.array(axis_coordinates).T
         
         if len(axis_coordinates) > 1:
             meshgrid_nodes = np.meshgrid(*axis_coordinates, indexing='ij')
-- 
2.43.0


From 0a3e048338299f0fc0ef99b665bc43a1bcd371a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:45:27 +0000
Subject: [PATCH 46/93] fix: precision matrices of lattices in several
 dimensions linked nodes that are not neighbours

---
 .../analysis/advanced_standard/stats/spde/lattice.py      | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/eustace/analysis/advanced_standard/stats/spde/lattice.py b/src/eustace/analysis/advanced_standard/stats/spde/lattice.py
index e0d2072..65cf0b3 100644
--- a/src/eustace/analysis/advanced_standard/stats/spde/lattice.py
+++ b/src/eustace/analysis/advanced_standard/stats/spde/lattice.py
@@ -628,8 +628,8 @@ class LatticeSPDE():
             inds_j = inds_j % self.lattice.number_of_nodes_per_dimension
             
             # covert the n-dimensional indices into one dimensional indices that correspond to the indexing of Q
-            inds_i = np.ravel_multi_index(inds_i.T, self.lattice.number_of_nodes_per_dimension)
-            inds_j = np.ravel_multi_index(inds_j.T, self.lattice.number_of_nodes_per_dimension)
+            inds_i = np.ravel_multi_index(inds_i.T, self.lattice.number_of_nodes_per_dimension, order='F')
+            inds_j = np.ravel_multi_index(inds_j.T, self.lattice.number_of_nodes_per_dimension, order='F')
             
             # use the indexing to fill in linked nodes in Q
             Q_neighbour[inds_i, inds_j] = - dim_scales[d]
@@ -676,8 +676,8 @@ class LatticeSPDE():
             inds_i = np.mgrid[slices_i].T.reshape(-1,self.lattice.n_dims)
             inds_j = np.mgrid[slices_j].T.reshape(-1,self.lattice.n_dims)
 
-            inds_i = np.ravel_multi_index(inds_i.T, self.lattice.number_of_nodes_per_dimension)
-            inds_j = np.ravel_multi_index(inds_j.T, self.lattice.number_of_nodes_per_dimension)
+            inds_i = np.ravel_multi_index(inds_i.T, self.lattice.number_of_nodes_per_dimension, order='F')
+            inds_j = np.ravel_multi_index(inds_j.T, self.lattice.number_of_nodes_per_dimension, order='F')
             
             Q_neighbour[inds_i, inds_j] = - dim_scales[d]
             Q_neighbour[inds_j, inds_i] = - dim_scales[d]
-- 
2.43.0


From 2cb329693a7aa6f588ec8c0b31757f68dbd04cf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:45:27 +0000
Subject: [PATCH 47/93] fix: derivatives of precision matrices ignored that
 dimensions of the lattice wrap

---
 .../advanced_standard/stats/spde/lattice.py   | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/src/eustace/analysis/advanced_standard/stats/spde/lattice.py b/src/eustace/analysis/advanced_standard/stats/spde/lattice.py
index 65cf0b3..06f1c90 100644
--- a/src/eustace/analysis/advanced_standard/stats/spde/lattice.py
+++ b/src/eustace/analysis/advanced_standard/stats/spde/lattice.py
@@ -668,14 +668,25 @@ class LatticeSPDE():
         for d in range(self.lattice.n_dims):
             
             slices_i = [slice(0, dim_length, None) for dim_length in self.lattice.number_of_nodes_per_dimension]
-            slices_i[d] = slice(0, self.lattice.number_of_nodes_per_dimension[d]-1)
-            
             slices_j = [slice(0, dim_length, None) for dim_length in self.lattice.number_of_nodes_per_dimension]
-            slices_j[d] = slice(1, self.lattice.number_of_nodes_per_dimension[d]) 
+            
+            # overwrite slice for dimension d so that i indices are offset in dimensions d by -1 in comparison to j indices
+            if self.lattice.wrap_dimensions is not None and self.lattice.wrap_dimensions[d] is True:
+                # slice for sequential indexing with additional wrapping so the last index maps to the first
+                slices_i[d] = slice(-1, self.lattice.number_of_nodes_per_dimension[d]-1)
+                slices_j[d] = slice(0, self.lattice.number_of_nodes_per_dimension[d]) 
+            else:
+                # only link sequential indexes
+                slices_i[d] = slice(0, self.lattice.number_of_nodes_per_dimension[d]-1)
+                slices_j[d] = slice(1, self.lattice.number_of_nodes_per_dimension[d]) 
             
             inds_i = np.mgrid[slices_i].T.reshape(-1,self.lattice.n_dims)
             inds_j = np.mgrid[slices_j].T.reshape(-1,self.lattice.n_dims)
-
+            
+            # normalise any negative indices to positive range
+            inds_i = inds_i % self.lattice.number_of_nodes_per_dimension
+            inds_j = inds_j % self.lattice.number_of_nodes_per_dimension
+            
             inds_i = np.ravel_multi_index(inds_i.T, self.lattice.number_of_nodes_per_dimension, order='F')
             inds_j = np.ravel_multi_index(inds_j.T, self.lattice.number_of_nodes_per_dimension, order='F')
             
-- 
2.43.0


From 656e510d115c84aa8564400e9f93af334fa2062b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:45:27 +0000
Subject: [PATCH 48/93] fix: precision matrices did not wrap when wrapping was
 asked for with a NumPy array

---
 src/eustace/analysis/advanced_standard/stats/spde/lattice.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/eustace/analysis/advanced_standard/stats/spde/lattice.py b/src/eustace/analysis/advanced_standard/stats/spde/lattice.py
index 06f1c90..5387417 100644
--- a/src/eustace/analysis/advanced_standard/stats/spde/lattice.py
+++ b/src/eustace/analysis/advanced_standard/stats/spde/lattice.py
@@ -610,7 +610,7 @@ class LatticeSPDE():
             slices_j = [slice(0, dim_length, None) for dim_length in self.lattice.number_of_nodes_per_dimension]
             
             # overwrite slice for dimension d so that i indices are offset in dimensions d by -1 in comparison to j indices
-            if self.lattice.wrap_dimensions is not None and self.lattice.wrap_dimensions[d] is True:
+            if self.lattice.wrap_dimensions is not None and self.lattice.wrap_dimensions[d]:
                 # slice for sequential indexing with additional wrapping so the last index maps to the first
                 slices_i[d] = slice(-1, self.lattice.number_of_nodes_per_dimension[d]-1)
                 slices_j[d] = slice(0, self.lattice.number_of_nodes_per_dimension[d]) 
@@ -671,7 +671,7 @@ class LatticeSPDE():
             slices_j = [slice(0, dim_length, None) for dim_length in self.lattice.number_of_nodes_per_dimension]
             
             # overwrite slice for dimension d so that i indices are offset in dimensions d by -1 in comparison to j indices
-            if self.lattice.wrap_dimensions is not None and self.lattice.wrap_dimensions[d] is True:
+            if self.lattice.wrap_dimensions is not None and self.lattice.wrap_dimensions[d]:
                 # slice for sequential indexing with additional wrapping so the last index maps to the first
                 slices_i[d] = slice(-1, self.lattice.number_of_nodes_per_dimension[d]-1)
                 slices_j[d] = slice(0, self.lattice.number_of_nodes_per_dimension[d]) 
-- 
2.43.0


From 8df3323d3716dadd8ee96fc2751465191c031623 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:45:27 +0000
Subject: [PATCH 49/93] fix: precision matrices of orders three and four on the
 sphere were those of lower order

---
 .../advanced_standard/stats/spde/spherical.py | 1122 ++++++++---------
 1 file changed, 561 insertions(+), 561 deletions(-)

diff --git a/src/eustace/analysis/advanced_standard/stats/spde/spherical.py b/src/eustace/analysis/advanced_standard/stats/spde/spherical.py
index d0ba536..4440834 100644
--- a/src/eustace/analysis/advanced_standard/stats/spde/spherical.py
+++ b/src/eustace/analysis/advanced_standard/stats/spde/spherical.py
@@ -1,561 +1,561 @@
-'''
-Created on May 10, 2017
-
-@author: hadcc
-
-Updated 20170812 JRM
-
-'''
-
-import numpy as np
-import scipy.sparse
-from eustace.analysis.mesh.mesh import MeshIcosahedron
-from eustace.analysis.mesh.mesh import MeshIcosahedronSubdivision
-from eustace.analysis.mesh.locator import TriangleLocatorHierarchical
-from eustace.analysis.mesh.geometry import polar2d_to_cartesian
-
-class SphereMeshSPDE(object):
-    """
-    
-    Compute precision matrices resulting from SPDE on spherical mesh.
-    
-    """
-    
-    def __init__(self, level, sparse_format='csr'):
-        """Build for specified level of subdivision of icosahedron."""
-        
-        self.triangulation = MeshIcosahedronSubdivision.build(level)
-        self.triangle_locator = TriangleLocatorHierarchical(MeshIcosahedronSubdivision.build(0))
-        self.sparse_format = sparse_format
-    
-    @staticmethod
-    def n_triangles_at_level(level):
-        """Utility routine for obtaining the number of triangulations at a given level.
-        
-        Intended to be used to infer the number of views that make up a full sphere.
-        
-        """
-        
-        n_triangles = 20
-        
-        for this_level in range(1,level+1):        
-            n_triangles = n_triangles * 4
-            
-        return n_triangles
-        
-    def n_latent_variables(self):
-        """Return number of latent variables in the SPDE model.
-        
-        Equal to the number of basis functions/number of nodes in the
-        triangular mesh.
-        
-        """
-        
-        return self.triangulation.points.shape[0]
-
-    def build_A(self, polar_coordinates):
-        """
-        Takes polar coordinates at which to evaluate basis functions (at triangulation level if specified) and returns the A matrix of basis weights.
-        Polar coordinates should be in NumPy 2D array with 2 rows (for latitude, longitude) and one column per point.
-        
-        """
-        
-        # Convert to cartesian coordinates on unit sphere
-        points = polar2d_to_cartesian(polar_coordinates)
-        
-        # Evaluate weights by computing barycentres
-        triangle_id, basis_weights = self.triangle_locator.locate_vector_hierarchical(points, levels=int(self.triangulation.level))
-
-        # Triangle numbers are for maximum subdivisions - revise to use only the subdivisions required
-        triangle_index = triangle_id >> (MeshIcosahedron.BASE_HASH_SHIFT - np.uint64(2*self.triangulation.level))
-        
-        # Put into matrix
-        n_bases = self.n_latent_variables()
-        n_locations = polar_coordinates.shape[0]
-        point_indices  = np.repeat(np.arange(n_locations), 3).ravel() 
-        vertex_indices = self.triangulation.triangles[triangle_index,1:].ravel()
-        A = scipy.sparse.dok_matrix((n_locations, n_bases))
-        A[point_indices, vertex_indices] = basis_weights.ravel()
-        return A.asformat(self.sparse_format)
-
-
-    @staticmethod
-    def triangle_area(vertices, triangle_vertex_indices):
-        """
-        Returns the area of a triangle with corners with coordinates in rows of triangle_vertex_indices.
-        
-        Args:
-        
-            * vertices:
-                Locations of triangle vertices for all triangles with dimensions [n_vertices, 3]
-                where each row contains the 3D coordinates of a vertex.
-                
-            * triangle_vertex_indices:
-                Indices to the vertices of a set of triangles with dimensions [n_triangles, 3]
-                where each row contains the indices of the three corners of a triangle.
-        
-        """
-        
-        all_vertices = vertices[triangle_vertex_indices.ravel(),:] # ordered as [triangle vertex number, 3d vertex coordinates] with each consecutive 3 rows corresponding to a single triangle
-    
-        edges_01  = all_vertices[1::3,:] - all_vertices[0::3,:]
-        edges_02 = all_vertices[2::3,:] - all_vertices[0::3,:]
-        
-        triangle_areas = 0.5 * np.linalg.norm(np.cross(edges_01, edges_02), axis = 1) 
-        
-        return triangle_areas
-    
-    @staticmethod
-    def triangle_edges(vertices, triangle_vertex_indices):
-        """
-        Returns the edge vectors of triangles with corners with coordinates in rows of triangle_vertex_indices.
-        
-        Returned edges are ordered such that the zeroth edge is opposite the zeroth vertex, first edge is 
-        opposite the first vertex and second edge is opposite the second vertex. 
-        
-        Args:
-        
-            * vertices:
-                Locations of triangle vertices for all triangles with dimensions [n_vertices, 3]
-                where each row contains the 3D coordinates of a vertex.
-                
-            * triangle_vertex_indices:
-                Indices to the vertices of a set of triangles with dimensions [n_triangles, 3]
-                where each row contains the indices of the three corners of a triangle.
-        
-        Returns:
-            
-            * edges:
-                Returns a 3D array of triangle edge vectors formatted as [3*n_triangles,3] where
-                [0::3,:] contains the edge vectors for the zeroth edge of each triangle,
-                [1::3,:] contains the edge vectors for the first edge of each triangle and
-                [2::3,:] contains the edge vectors for the last edge of each triangle.
-        
-        """
-        
-        n_triangles = triangle_vertex_indices.shape[0]
-        all_vertices = vertices[triangle_vertex_indices.ravel(),:] # ordered as [triangle vertex number, 3d vertex coordinates] with each consecutive 3 rows corresponding to a single triangle
-        
-        edges = np.zeros((3*n_triangles,3))
-        
-        edges[0::3] = all_vertices[2::3] - all_vertices[1::3]
-        edges[1::3] = all_vertices[0::3] - all_vertices[2::3]
-        edges[2::3] = all_vertices[1::3] - all_vertices[0::3]
-        
-        return edges
-        
-    def sigma_design_matrix_stationary(self):
-        """Get sigma matrix for stationary process."""
-
-        number_of_latent_variables = self.n_latent_variables()        
-        
-        sigma_design_matrix = scipy.sparse.dok_matrix((number_of_latent_variables, 2))
-        sigma_design_matrix[:,0] = 1.0
-        
-        return sigma_design_matrix.asformat( self.sparse_format )
-
-    def rho_design_matrix_stationary(self):
-        """Get rho matrix for stationary process."""
-        
-        number_of_latent_variables = self.n_latent_variables()        
-        
-        rho_design_matrix = scipy.sparse.dok_matrix((number_of_latent_variables, 2))
-        rho_design_matrix[:,1] = 1.0
-        
-        return rho_design_matrix.asformat( self.sparse_format )
-    
-    def build_Q_stationary(self, log_sigma, log_rho, alpha):
-        """Call build_Q for the stationary case."""
-        
-        # Vector of parameters
-        Q_parameters = np.array([ log_sigma, log_rho ])
-        
-        return self.build_Q(Q_parameters, alpha, self.sigma_design_matrix_stationary(), self.rho_design_matrix_stationary())
-
-    def build_dQdp_stationary(self, log_sigma, log_rho, alpha, parameter_index):
-        """Call build_dQdp for the stationary case."""        
-        
-        # Vector of parameters
-        Q_parameters = np.array([ log_sigma, log_rho ])
-        
-        return self.build_dQdp(Q_parameters, alpha, self.sigma_design_matrix_stationary(), self.rho_design_matrix_stationary(), parameter_index)
-
-    def sigma_design_matrix_expanded(self):
-        """Get sigma matrix for non-stationary process with expanded parameterisation."""
-
-        number_of_latent_variables = self.n_latent_variables()        
-        
-        sigma_design_matrix = scipy.sparse.hstack( [scipy.sparse.eye(number_of_latent_variables),
-                                                    scipy.sparse.dok_matrix((number_of_latent_variables, number_of_latent_variables))] )
-        
-        return sigma_design_matrix.asformat( self.sparse_format )
-
-    def rho_design_matrix_expanded(self):
-        """Get rho matrix for non-stationary process with expanded parameterisation."""
-        
-        number_of_latent_variables = self.n_latent_variables()        
-        
-        rho_design_matrix = scipy.sparse.hstack( [scipy.sparse.dok_matrix((number_of_latent_variables, number_of_latent_variables)),
-                                                  scipy.sparse.eye(number_of_latent_variables)] )
-        
-        return rho_design_matrix.asformat( self.sparse_format )
-
-    def build_Q_expanded(self, log_sigma, log_rho, alpha):
-        """Call build_Q for the non-stationary case for parameter expanded representation with parameters specified at each node."""
-        
-        # Vector of parameters
-        Q_parameters = np.concatenate([ log_sigma, log_rho ])
-        
-        return self.build_Q(Q_parameters, alpha, self.sigma_design_matrix_expanded(), self.rho_design_matrix_expanded())
-    
-    def build_dQdp_expanded(self, log_sigma, log_rho, alpha, parameter_index):
-        """Call build_dQdp for the non-stationary case for parameter expanded representation with parameters specified at each node.
-        
-        The expanded representation is intended for use for non-stationary models with pre-computed parameters.
-        
-        It is strongly recommended that the expanded representation is not used for optimisation except for
-        trivially small models as it would optimise a (sigma, rho) pair at each individual node!!!
-        
-        """       
-        
-        # Vector of parameters
-        Q_parameters = np.concatenate([ log_sigma, log_rho ])
-        
-        return self.build_dQdp(Q_parameters, alpha, self.sigma_design_matrix_expanded(), self.rho_design_matrix_expanded(), parameter_index)
-    
-    
-    def build_Q(self, Q_parameters, alpha, sigma_design_matrix, rho_design_matrix):
-        """Build precision matrix for regression type non-stationary precision model.
-        
-        log( \sigma ) = \sigma_0 + \sum_{k}^p b_k theta_k
-        
-        log( \rho ) = \rho_0 + \sum_{k}^p c_k theta_k
-        
-        In terms of input kwargs this may be computed as:
-        
-        log( \sigma ) = \sigma_0 + sigma_design_matrix * Q_parameters
-        log( \rho )   = \rho_0   + rho_design_matrix * Q_parameters
-        
-        b_k values are stored in the kth column of sigma_design_matrix,
-        c_k values are stored in the kth column of rho_design_matrix, and 
-        theta_k is the value in the kth row of Q_parameters. \sigma_0, \rho_0 are 
-        fixed internally to each equal zero.
-        
-        By default a stationary precision is constructed such that:
-        
-        log( \sigma ) = \sigma_0 + b_0 theta_0        
-        log( \rho )   = \rho_0   + b_1 theta_1
-        
-        For default setup, with sigma_design_matrix=None and rho_design_matrix = None, Q_parameters 
-        are equivalent to log(sigma), log(rho). This setup permits optimisation of log(sigma), log(rho)
-        and has a reasonably intuitive interpretation of Q_parameters. In the more general case, the
-        interpretation of the parameters is less intuitive.
-        
-        This default setup of Q_parameters = np.array([[0.0, 0.0]]).T results in sigma = 1, rho = 1,
-        i.e. theta_1 = exp(1), sigma = exp(1).
-        
-        Note: the default stationary model has been removed from the implementation. Convenience
-        methods are instead provided to construct the design matrices for a stationary model. Methods
-        are also provided for an expanded parameter representation when sigma and rho are specified
-        at each individual node.
-        
-        Internally, the (sigma, rho) parameterisation is converted into the native (kappa, tau) parameterisation,
-        by computation of \kappa_0, kappa_design_matrix, \tau_0, and tau_design_matrix. This forms a similar
-        pair of log linear models that use the same Q_parameters matrix as the (sigma, rho) parameterisation.
-        
-        log( \kappa ) = \kappa_0 + kappa_design_matrix * Q_parameters
-        log( \tau )   = \tau_0   + tau_design_matrix * Q_parameters
-        
-        """
-        
-        from scipy.special import gamma
-
-        # convert sigma, rho parameterisation into kappa, tau
-        d = 2   # domain dimension for manifold
-        nu = alpha - d / 2.0
-        
-        if 2 * alpha <= d:
-            raise ValueError('alpha must be greater than the manifold dimension / 2')
-        
-        # Convert provided design matrices into appropriate design matrices for the internal (tau, kappa) representation.        
-        b0_sigma = 0.0 # Equivalent to a unity base scale factor on sigma
-        b0_rho   = 0.0 # Equivalent to a unity base scale factor on rho
-        
-        b0_kappa = np.log( 8.0 * nu ) / 2.0 - b0_rho
-        b0_tau   = 0.5 * np.log( gamma(nu) / (gamma(alpha)* (4*np.pi)**(0.5*d) ) ) - b0_sigma - nu * b0_kappa
-        
-        kappa_design_matrix = -rho_design_matrix
-        tau_design_matrix   = -sigma_design_matrix - nu * kappa_design_matrix
-        
-        # compute non-stationary kappa and tau vectors
-        kappa = np.exp( b0_kappa + kappa_design_matrix.dot(Q_parameters) ).ravel()
-        tau   = np.exp( b0_tau + tau_design_matrix.dot(Q_parameters) ).ravel()
-    
-        kappa = scipy.sparse.diags(kappa, format=self.sparse_format)
-        tau = scipy.sparse.diags(tau, format=self.sparse_format)
-    
-        Q = self.build_Q_native(kappa=kappa, alpha= alpha, tau = tau)        
-
-        return Q
-    
-    def build_dQdp(self, Q_parameters, alpha, sigma_design_matrix, rho_design_matrix, parameter_index):
-        """Build precision matrix for regression type non-stationary precision model.
-        
-        log( \sigma ) = \sigma_0 + \sum_{k}^p b_k theta_k
-        
-        log( \rho ) = \rho_0 + \sum_{k}^p c_k theta_k
-        
-        In terms of input kwargs this may be computed as:
-        
-        log( \sigma ) = \sigma_0 + sigma_design_matrix * Q_parameters
-        log( \rho )   = \rho_0   + rho_design_matrix * Q_parameters
-        
-        b_k values are stored in the kth column of sigma_design_matrix,
-        c_k values are stored in the kth column of rho_design_matrix, and 
-        theta_k is the value in the kth row of Q_parameters. \sigma_0, \rho_0 are 
-        fixed internally to each equal zero.
-        
-        By default a stationary precision is constructed such that:
-        
-        log( \sigma ) = \sigma_0 + b_0 theta_0        
-        log( \rho )   = \rho_0   + b_1 theta_1
-        
-        For default setup, with sigma_design_matrix=None and rho_design_matrix = None, Q_parameters 
-        are equivalent to log(sigma), log(rho). This setup permits optimisation of log(sigma), log(rho)
-        and has a reasonably intuitive interpretation of Q_parameters. In the more general case, the
-        interpretation of the parameters is less intuitive.
-        
-        This default setup of Q_parameters = np.array([[0.0, 0.0]]).T results in sigma = 1, rho = 1,
-        i.e. theta_1 = exp(1), sigma = exp(1).
-        
-        Internally, the (sigma, rho) parameterisation is converted into the native (kappa, tau) parameterisation,
-        by computation of \kappa_0, kappa_design_matrix, \tau_0, and tau_design_matrix. This forms a similar
-        pair of log linear models that use the same Q_parameters matrix as the (sigma, rho) parameterisation.
-        
-        log( \kappa ) = \kappa_0 + kappa_design_matrix * Q_parameters
-        log( \tau )   = \tau_0   + tau_design_matrix * Q_parameters
-        
-        """
-        
-        from scipy.special import gamma
-
-        # convert sigma, rho parameterisation into kappa, tau
-        d = 2   # domain dimension for manifold
-        nu = alpha - d / 2.0
-        
-        if 2 * alpha <= d:
-            raise ValueError('alpha must be greater than the manifold dimension / 2')
-        
-        # Convert provided design matrices into appropriate design matrices for the internal (tau, kappa) representation.        
-        b0_sigma = 0.0 # Equivalent to a unity base scale factor on sigma
-        b0_rho   = 0.0 # Equivalent to a unity base scale factor on rho
-        
-        b0_kappa = np.log( 8.0 * nu ) / 2.0 - b0_rho
-        b0_tau   = 0.5 * np.log( gamma(nu) / (gamma(alpha)* (4*np.pi)**(0.5*d) ) ) - b0_sigma - nu * b0_kappa
-        
-        kappa_design_matrix = -rho_design_matrix
-        tau_design_matrix   = -sigma_design_matrix - nu * kappa_design_matrix
-        
-        # compute non-stationary kappa and tau vectors evaluated at each vertex
-        kappa = np.exp( b0_kappa + kappa_design_matrix.dot( Q_parameters) ).ravel()
-        tau   = np.exp( b0_tau + tau_design_matrix.dot( Q_parameters) ).ravel()
-    
-        # compute derivatives of kappa and tau w.r.t. the specified hyperparameter
-        dQ_parameters = np.zeros(Q_parameters.shape)
-        dQ_parameters[parameter_index] = 1.0    
-        dkappa = (kappa_design_matrix.dot(dQ_parameters) * kappa).ravel()
-        dtau   = (tau_design_matrix.dot(dQ_parameters) * tau).ravel()
-    
-        # remap kappa and tau and their derivatives into diagonal sparse matrices
-        kappa = scipy.sparse.diags(kappa, format=self.sparse_format)
-        tau = scipy.sparse.diags(tau, format=self.sparse_format)
-        
-        dkappa = scipy.sparse.diags(dkappa, format=self.sparse_format)
-        dtau = scipy.sparse.diags(dtau, format=self.sparse_format)
-        
-        dQdp = self.build_dQdp_native(alpha= alpha, kappa=kappa, tau = tau, dkappa=dkappa, dtau=dtau)
-
-        return dQdp
-    
-    
-    
-    def build_Q_native(self, kappa, tau, alpha):
-        """
-        Build the precision matrix for the latent process vector following method of Lindgren and Rue.
-        
-        This routine uses the native kappa, tau parameterisation.
-        
-        """
-
-        C_tilde = self.build_Q_C_tilde()
-        
-        # C_tilde is diagonal so invert as follows
-        inv_C_tilde = scipy.sparse.diags( 1.0 / C_tilde.diagonal(), format=self.sparse_format)
-        
-        G = self.build_Q_G()
-        
-        K = kappa * C_tilde * kappa + G
-        
-        if alpha % 2 == 0:
-            
-            Q = K * inv_C_tilde * K
-            for i in range(4, alpha, 2):
-                Q = K * inv_C_tilde * Q * inv_C_tilde * K
-        else:
-            Q = K
-            for i in range(3, alpha, 2):
-                Q = K * inv_C_tilde * Q * inv_C_tilde * K
-        
-        Q = tau * Q * tau
-        
-        return Q
-
-    def build_dQdp_native(self, kappa= 1.0, tau = 1.0, alpha = 2, dkappa=None, dtau=None, level = None):
-        """
-        Build the precision matrix for the latent process vector following method of Lindgren and Rue.
-        
-        This routine uses the native kappa, tau parameterisation.
-        
-        """
-        
-        C_tilde = self.build_Q_C_tilde()
-        
-        # C_tilde is diagonal so invert as follows
-        inv_C_tilde = scipy.sparse.diags( 1.0 / C_tilde.diagonal(), format=self.sparse_format)
-        
-        G = self.build_Q_G()
-        
-        K = kappa * C_tilde * kappa + G        
-        dKdp = dkappa * C_tilde * kappa + kappa * C_tilde * dkappa
-        
-        if alpha % 2 == 0:
-            
-            Q = K * inv_C_tilde * K
-            dQdp = dKdp * inv_C_tilde * K + K * inv_C_tilde * dKdp
-            
-            for i in range(4, alpha, 2):
-                
-                dQdp = dKdp * inv_C_tilde * Q * inv_C_tilde * K + \
-                       K * inv_C_tilde * dQdp * inv_C_tilde * K + \
-                       K * inv_C_tilde * Q * inv_C_tilde * dKdp
-                Q = K * inv_C_tilde * Q * inv_C_tilde * K
-        else:
-            Q = K
-            dQdp = dKdp
-            for i in range(3, alpha, 2):
-                
-                dQdp = dKdp * inv_C_tilde * Q * inv_C_tilde * K + \
-                       K * inv_C_tilde * dQdp * inv_C_tilde * K + \
-                       K * inv_C_tilde * Q * inv_C_tilde * dKdp
-                Q = K * inv_C_tilde * Q * inv_C_tilde * K
-        
-        dQdp = dtau * Q * tau + \
-                tau * dQdp * tau + \
-                tau * Q * dtau
-        
-        return dQdp
-
-    def build_Q_C_tilde(self):
-        """
-        Build the Q_C matrix.
-        
-        """
-                
-        triangle_vertex_indices = self.triangulation.triangles[:,1:]
-        
-        dT = self.triangle_area(self.triangulation.points, triangle_vertex_indices)
-        
-        indices = triangle_vertex_indices.ravel()
-        data = np.repeat(dT,3) / 3.0
-        
-        Q_C_tilde = scipy.sparse.coo_matrix( (data, (indices,indices) ) )        
-        Q_C_tilde = Q_C_tilde.asformat(self.sparse_format)
-        
-        return Q_C_tilde
-    
-    def build_Q_G(self):
-        """
-        Build the Q_G matrix.
-        
-        """
-        
-        number_of_triangles = self.triangulation.triangles.shape[0]
-        
-        triangle_vertex_indices = self.triangulation.triangles[:,1:]
-        dT = self.triangle_area(self.triangulation.points, triangle_vertex_indices)
-        
-        edges = self.triangle_edges(self.triangulation.points, triangle_vertex_indices).reshape( (number_of_triangles, 3, 3) )
-        
-        # Following einsum for edges_dot is equivalent to np.dot(edges[i,:,:], edges[i,:,:].T)
-        # for all triangles index by i. Can shown to be with:
-        # np.testing.assert_allclose(edges_dot[0,:,:], np.dot(edges[0,:,:], edges[0,:,:].T))       
-        edges_dot = np.einsum('ijk,ilk->ijl', edges, edges)
-        
-        g = 1.0 / (4.0 * np.repeat(dT,9)) * edges_dot.ravel()
-        
-        data = g.ravel()
-        
-        indices_i = np.repeat( triangle_vertex_indices.ravel(), 3 )
-        indices_j = np.tile( triangle_vertex_indices, (1,3) ).ravel()
-        
-        Q_G = scipy.sparse.coo_matrix( (data, (indices_i,indices_j) ) )
-        Q_G = Q_G.asformat(self.sparse_format)
-        
-        return Q_G
-    
-    def build_Q_B(self):
-        """
-        See Lindgren and Rue. Not implemented.
-        
-        """
-        
-        raise NotImplementedError
-
-    def mesh_at_level(self, level = 0, project_onto_sphere = True):
-        """Returns a subdivided icosohedron mesh at a given level"""
-        return MeshIcosahedronSubdivision.build(level, project_onto_sphere = project_onto_sphere)
-    
-    def neighbours_at_level(self, neighbourhood_level = 0, centre_index_at_level = None):
-        """Return indices of vertices the enclosing triangle and surrounding triangles at a given level"""
-        
-        # extract triangles at the subdivision level of the desired set of neighbours defining the subregion of interest
-        mesh_at_neighbourhood_level = self.mesh_at_level(neighbourhood_level)
-        
-        full_resolution_triangle_ids = self.triangulation.triangles[:,0]
-        neighbour_resolution_triangles = mesh_at_neighbourhood_level.triangles
-        
-        # get indices to triangles in neighbourhood that include at least one vertex of the the centre triangle
-        centre_triangle_vertex_indices = neighbour_resolution_triangles[centre_index_at_level,1:]
-        in_neighbourhood = np.any( neighbour_resolution_triangles[:,1:] == centre_triangle_vertex_indices[0], axis = 1 ) | \
-                           np.any( neighbour_resolution_triangles[:,1:] == centre_triangle_vertex_indices[1], axis = 1 ) | \
-                           np.any( neighbour_resolution_triangles[:,1:] == centre_triangle_vertex_indices[2], axis = 1 )
-        
-        neighbour_triangle_ids = neighbour_resolution_triangles[in_neighbourhood,0]
-        
-        neighbourhood_triangle_indices = neighbour_triangle_ids >> MeshIcosahedron.BASE_HASH_SHIFT - np.uint64(2*neighbourhood_level)
-        self_triangle_indices_at_neighbourhood_level = full_resolution_triangle_ids >> MeshIcosahedron.BASE_HASH_SHIFT - np.uint64(2*neighbourhood_level)
-        
-        # accumulate flags for full resolution triangle that are in the desired neighbourhood
-        n_neighbours = len(neighbourhood_triangle_indices)
-
-        in_neighbourhood_full_resolution = np.zeros(self.triangulation.triangles.shape[0], dtype = np.int16)
-        for n in range(n_neighbours):
-            in_neighbourhood_full_resolution += self_triangle_indices_at_neighbourhood_level == neighbourhood_triangle_indices[n]
-
-        # find indices to full resolution triangles that are in the neighbourhood
-        indices_to_neighbourhood = np.where(in_neighbourhood_full_resolution > 0)[0]
-        
-        return indices_to_neighbourhood
-    
-    def super_triangle_at_level(self, super_triangle_level = 0, super_triangle_index = None):
-        """Return indices of vertices within a triangle at a given level"""
-        
-        # bit shift triangle indices to get indices of containing super triangles at the desired level
-        full_resolution_triangle_ids = self.triangulation.triangles[:,0]        
-        indices_at_super_level = full_resolution_triangle_ids >> MeshIcosahedron.BASE_HASH_SHIFT - np.uint64(2*super_triangle_level)
-        
-        # get indices to those triangles in the super triangle with the specified triangle index
-        in_super_triangle = indices_at_super_level == super_triangle_index
-        indices_in_super_triangle = np.where(in_super_triangle)[0]
-        
-        return indices_in_super_triangle
+'''
+Created on May 10, 2017
+
+@author: hadcc
+
+Updated 20170812 JRM
+
+'''
+
+import numpy as np
+import scipy.sparse
+from eustace.analysis.mesh.mesh import MeshIcosahedron
+from eustace.analysis.mesh.mesh import MeshIcosahedronSubdivision
+from eustace.analysis.mesh.locator import TriangleLocatorHierarchical
+from eustace.analysis.mesh.geometry import polar2d_to_cartesian
+
+class SphereMeshSPDE(object):
+    """
+    
+    Compute precision matrices resulting from SPDE on spherical mesh.
+    
+    """
+    
+    def __init__(self, level, sparse_format='csr'):
+        """Build for specified level of subdivision of icosahedron."""
+        
+        self.triangulation = MeshIcosahedronSubdivision.build(level)
+        self.triangle_locator = TriangleLocatorHierarchical(MeshIcosahedronSubdivision.build(0))
+        self.sparse_format = sparse_format
+    
+    @staticmethod
+    def n_triangles_at_level(level):
+        """Utility routine for obtaining the number of triangulations at a given level.
+        
+        Intended to be used to infer the number of views that make up a full sphere.
+        
+        """
+        
+        n_triangles = 20
+        
+        for this_level in range(1,level+1):        
+            n_triangles = n_triangles * 4
+            
+        return n_triangles
+        
+    def n_latent_variables(self):
+        """Return number of latent variables in the SPDE model.
+        
+        Equal to the number of basis functions/number of nodes in the
+        triangular mesh.
+        
+        """
+        
+        return self.triangulation.points.shape[0]
+
+    def build_A(self, polar_coordinates):
+        """
+        Takes polar coordinates at which to evaluate basis functions (at triangulation level if specified) and returns the A matrix of basis weights.
+        Polar coordinates should be in NumPy 2D array with 2 rows (for latitude, longitude) and one column per point.
+        
+        """
+        
+        # Convert to cartesian coordinates on unit sphere
+        points = polar2d_to_cartesian(polar_coordinates)
+        
+        # Evaluate weights by computing barycentres
+        triangle_id, basis_weights = self.triangle_locator.locate_vector_hierarchical(points, levels=int(self.triangulation.level))
+
+        # Triangle numbers are for maximum subdivisions - revise to use only the subdivisions required
+        triangle_index = triangle_id >> (MeshIcosahedron.BASE_HASH_SHIFT - np.uint64(2*self.triangulation.level))
+        
+        # Put into matrix
+        n_bases = self.n_latent_variables()
+        n_locations = polar_coordinates.shape[0]
+        point_indices  = np.repeat(np.arange(n_locations), 3).ravel() 
+        vertex_indices = self.triangulation.triangles[triangle_index,1:].ravel()
+        A = scipy.sparse.dok_matrix((n_locations, n_bases))
+        A[point_indices, vertex_indices] = basis_weights.ravel()
+        return A.asformat(self.sparse_format)
+
+
+    @staticmethod
+    def triangle_area(vertices, triangle_vertex_indices):
+        """
+        Returns the area of a triangle with corners with coordinates in rows of triangle_vertex_indices.
+        
+        Args:
+        
+            * vertices:
+                Locations of triangle vertices for all triangles with dimensions [n_vertices, 3]
+                where each row contains the 3D coordinates of a vertex.
+                
+            * triangle_vertex_indices:
+                Indices to the vertices of a set of triangles with dimensions [n_triangles, 3]
+                where each row contains the indices of the three corners of a triangle.
+        
+        """
+        
+        all_vertices = vertices[triangle_vertex_indices.ravel(),:] # ordered as [triangle vertex number, 3d vertex coordinates] with each consecutive 3 rows corresponding to a single triangle
+    
+        edges_01  = all_vertices[1::3,:] - all_vertices[0::3,:]
+        edges_02 = all_vertices[2::3,:] - all_vertices[0::3,:]
+        
+        triangle_areas = 0.5 * np.linalg.norm(np.cross(edges_01, edges_02), axis = 1) 
+        
+        return triangle_areas
+    
+    @staticmethod
+    def triangle_edges(vertices, triangle_vertex_indices):
+        """
+        Returns the edge vectors of triangles with corners with coordinates in rows of triangle_vertex_indices.
+        
+        Returned edges are ordered such that the zeroth edge is opposite the zeroth vertex, first edge is 
+        opposite the first vertex and second edge is opposite the second vertex. 
+        
+        Args:
+        
+            * vertices:
+                Locations of triangle vertices for all triangles with dimensions [n_vertices, 3]
+                where each row contains the 3D coordinates of a vertex.
+                
+            * triangle_vertex_indices:
+                Indices to the vertices of a set of triangles with dimensions [n_triangles, 3]
+                where each row contains the indices of the three corners of a triangle.
+        
+        Returns:
+            
+            * edges:
+                Returns a 3D array of triangle edge vectors formatted as [3*n_triangles,3] where
+                [0::3,:] contains the edge vectors for the zeroth edge of each triangle,
+                [1::3,:] contains the edge vectors for the first edge of each triangle and
+                [2::3,:] contains the edge vectors for the last edge of each triangle.
+        
+        """
+        
+        n_triangles = triangle_vertex_indices.shape[0]
+        all_vertices = vertices[triangle_vertex_indices.ravel(),:] # ordered as [triangle vertex number, 3d vertex coordinates] with each consecutive 3 rows corresponding to a single triangle
+        
+        edges = np.zeros((3*n_triangles,3))
+        
+        edges[0::3] = all_vertices[2::3] - all_vertices[1::3]
+        edges[1::3] = all_vertices[0::3] - all_vertices[2::3]
+        edges[2::3] = all_vertices[1::3] - all_vertices[0::3]
+        
+        return edges
+        
+    def sigma_design_matrix_stationary(self):
+        """Get sigma matrix for stationary process."""
+
+        number_of_latent_variables = self.n_latent_variables()        
+        
+        sigma_design_matrix = scipy.sparse.dok_matrix((number_of_latent_variables, 2))
+        sigma_design_matrix[:,0] = 1.0
+        
+        return sigma_design_matrix.asformat( self.sparse_format )
+
+    def rho_design_matrix_stationary(self):
+        """Get rho matrix for stationary process."""
+        
+        number_of_latent_variables = self.n_latent_variables()        
+        
+        rho_design_matrix = scipy.sparse.dok_matrix((number_of_latent_variables, 2))
+        rho_design_matrix[:,1] = 1.0
+        
+        return rho_design_matrix.asformat( self.sparse_format )
+    
+    def build_Q_stationary(self, log_sigma, log_rho, alpha):
+        """Call build_Q for the stationary case."""
+        
+        # Vector of parameters
+        Q_parameters = np.array([ log_sigma, log_rho ])
+        
+        return self.build_Q(Q_parameters, alpha, self.sigma_design_matrix_stationary(), self.rho_design_matrix_stationary())
+
+    def build_dQdp_stationary(self, log_sigma, log_rho, alpha, parameter_index):
+        """Call build_dQdp for the stationary case."""        
+        
+        # Vector of parameters
+        Q_parameters = np.array([ log_sigma, log_rho ])
+        
+        return self.build_dQdp(Q_parameters, alpha, self.sigma_design_matrix_stationary(), self.rho_design_matrix_stationary(), parameter_index)
+
+    def sigma_design_matrix_expanded(self):
+        """Get sigma matrix for non-stationary process with expanded parameterisation."""
+
+        number_of_latent_variables = self.n_latent_variables()        
+        
+        sigma_design_matrix = scipy.sparse.hstack( [scipy.sparse.eye(number_of_latent_variables),
+                                                    scipy.sparse.dok_matrix((number_of_latent_variables, number_of_latent_variables))] )
+        
+        return sigma_design_matrix.asformat( self.sparse_format )
+
+    def rho_design_matrix_expanded(self):
+        """Get rho matrix for non-stationary process with expanded parameterisation."""
+        
+        number_of_latent_variables = self.n_latent_variables()        
+        
+        rho_design_matrix = scipy.sparse.hstack( [scipy.sparse.dok_matrix((number_of_latent_variables, number_of_latent_variables)),
+                                                  scipy.sparse.eye(number_of_latent_variables)] )
+        
+        return rho_design_matrix.asformat( self.sparse_format )
+
+    def build_Q_expanded(self, log_sigma, log_rho, alpha):
+        """Call build_Q for the non-stationary case for parameter expanded representation with parameters specified at each node."""
+        
+        # Vector of parameters
+        Q_parameters = np.concatenate([ log_sigma, log_rho ])
+        
+        return self.build_Q(Q_parameters, alpha, self.sigma_design_matrix_expanded(), self.rho_design_matrix_expanded())
+    
+    def build_dQdp_expanded(self, log_sigma, log_rho, alpha, parameter_index):
+        """Call build_dQdp for the non-stationary case for parameter expanded representation with parameters specified at each node.
+        
+        The expanded representation is intended for use for non-stationary models with pre-computed parameters.
+        
+        It is strongly recommended that the expanded representation is not used for optimisation except for
+        trivially small models as it would optimise a (sigma, rho) pair at each individual node!!!
+        
+        """       
+        
+        # Vector of parameters
+        Q_parameters = np.concatenate([ log_sigma, log_rho ])
+        
+        return self.build_dQdp(Q_parameters, alpha, self.sigma_design_matrix_expanded(), self.rho_design_matrix_expanded(), parameter_index)
+    
+    
+    def build_Q(self, Q_parameters, alpha, sigma_design_matrix, rho_design_matrix):
+        """Build precision matrix for regression type non-stationary precision model.
+        
+        log( \sigma ) = \sigma_0 + \sum_{k}^p b_k theta_k
+        
+        log( \rho ) = \rho_0 + \sum_{k}^p c_k theta_k
+        
+        In terms of input kwargs this may be computed as:
+        
+        log( \sigma ) = \sigma_0 + sigma_design_matrix * Q_parameters
+        log( \rho )   = \rho_0   + rho_design_matrix * Q_parameters
+        
+        b_k values are stored in the kth column of sigma_design_matrix,
+        c_k values are stored in the kth column of rho_design_matrix, and 
+        theta_k is the value in the kth row of Q_parameters. \sigma_0, \rho_0 are 
+        fixed internally to each equal zero.
+        
+        By default a stationary precision is constructed such that:
+        
+        log( \sigma ) = \sigma_0 + b_0 theta_0        
+        log( \rho )   = \rho_0   + b_1 theta_1
+        
+        For default setup, with sigma_design_matrix=None and rho_design_matrix = None, Q_parameters 
+        are equivalent to log(sigma), log(rho). This setup permits optimisation of log(sigma), log(rho)
+        and has a reasonably intuitive interpretation of Q_parameters. In the more general case, the
+        interpretation of the parameters is less intuitive.
+        
+        This default setup of Q_parameters = np.array([[0.0, 0.0]]).T results in sigma = 1, rho = 1,
+        i.e. theta_1 = exp(1), sigma = exp(1).
+        
+        Note: the default stationary model has been removed from the implementation. Convenience
+        methods are instead provided to construct the design matrices for a stationary model. Methods
+        are also provided for an expanded parameter representation when sigma and rho are specified
+        at each individual node.
+        
+        Internally, the (sigma, rho) parameterisation is converted into the native (kappa, tau) parameterisation,
+        by computation of \kappa_0, kappa_design_matrix, \tau_0, and tau_design_matrix. This forms a similar
+        pair of log linear models that use the same Q_parameters matrix as the (sigma, rho) parameterisation.
+        
+        log( \kappa ) = \kappa_0 + kappa_design_matrix * Q_parameters
+        log( \tau )   = \tau_0   + tau_design_matrix * Q_parameters
+        
+        """
+        
+        from scipy.special import gamma
+
+        # convert sigma, rho parameterisation into kappa, tau
+        d = 2   # domain dimension for manifold
+        nu = alpha - d / 2.0
+        
+        if 2 * alpha <= d:
+            raise ValueError('alpha must be greater than the manifold dimension / 2')
+        
+        # Convert provided design matrices into appropriate design matrices for the internal (tau, kappa) representation.        
+        b0_sigma = 0.0 # Equivalent to a unity base scale factor on sigma
+        b0_rho   = 0.0 # Equivalent to a unity base scale factor on rho
+        
+        b0_kappa = np.log( 8.0 * nu ) / 2.0 - b0_rho
+        b0_tau   = 0.5 * np.log( gamma(nu) / (gamma(alpha)* (4*np.pi)**(0.5*d) ) ) - b0_sigma - nu * b0_kappa
+        
+        kappa_design_matrix = -rho_design_matrix
+        tau_design_matrix   = -sigma_design_matrix - nu * kappa_design_matrix
+        
+        # compute non-stationary kappa and tau vectors
+        kappa = np.exp( b0_kappa + kappa_design_matrix.dot(Q_parameters) ).ravel()
+        tau   = np.exp( b0_tau + tau_design_matrix.dot(Q_parameters) ).ravel()
+    
+        kappa = scipy.sparse.diags(kappa, format=self.sparse_format)
+        tau = scipy.sparse.diags(tau, format=self.sparse_format)
+    
+        Q = self.build_Q_native(kappa=kappa, alpha= alpha, tau = tau)        
+
+        return Q
+    
+    def build_dQdp(self, Q_parameters, alpha, sigma_design_matrix, rho_design_matrix, parameter_index):
+        """Build precision matrix for regression type non-stationary precision model.
+        
+        log( \sigma ) = \sigma_0 + \sum_{k}^p b_k theta_k
+        
+        log( \rho ) = \rho_0 + \sum_{k}^p c_k theta_k
+        
+        In terms of input kwargs this may be computed as:
+        
+        log( \sigma ) = \sigma_0 + sigma_design_matrix * Q_parameters
+        log( \rho )   = \rho_0   + rho_design_matrix * Q_parameters
+        
+        b_k values are stored in the kth column of sigma_design_matrix,
+        c_k values are stored in the kth column of rho_design_matrix, and 
+        theta_k is the value in the kth row of Q_parameters. \sigma_0, \rho_0 are 
+        fixed internally to each equal zero.
+        
+        By default a stationary precision is constructed such that:
+        
+        log( \sigma ) = \sigma_0 + b_0 theta_0        
+        log( \rho )   = \rho_0   + b_1 theta_1
+        
+        For default setup, with sigma_design_matrix=None and rho_design_matrix = None, Q_parameters 
+        are equivalent to log(sigma), log(rho). This setup permits optimisation of log(sigma), log(rho)
+        and has a reasonably intuitive interpretation of Q_parameters. In the more general case, the
+        interpretation of the parameters is less intuitive.
+        
+        This default setup of Q_parameters = np.array([[0.0, 0.0]]).T results in sigma = 1, rho = 1,
+        i.e. theta_1 = exp(1), sigma = exp(1).
+        
+        Internally, the (sigma, rho) parameterisation is converted into the native (kappa, tau) parameterisation,
+        by computation of \kappa_0, kappa_design_matrix, \tau_0, and tau_design_matrix. This forms a similar
+        pair of log linear models that use the same Q_parameters matrix as the (sigma, rho) parameterisation.
+        
+        log( \kappa ) = \kappa_0 + kappa_design_matrix * Q_parameters
+        log( \tau )   = \tau_0   + tau_design_matrix * Q_parameters
+        
+        """
+        
+        from scipy.special import gamma
+
+        # convert sigma, rho parameterisation into kappa, tau
+        d = 2   # domain dimension for manifold
+        nu = alpha - d / 2.0
+        
+        if 2 * alpha <= d:
+            raise ValueError('alpha must be greater than the manifold dimension / 2')
+        
+        # Convert provided design matrices into appropriate design matrices for the internal (tau, kappa) representation.        
+        b0_sigma = 0.0 # Equivalent to a unity base scale factor on sigma
+        b0_rho   = 0.0 # Equivalent to a unity base scale factor on rho
+        
+        b0_kappa = np.log( 8.0 * nu ) / 2.0 - b0_rho
+        b0_tau   = 0.5 * np.log( gamma(nu) / (gamma(alpha)* (4*np.pi)**(0.5*d) ) ) - b0_sigma - nu * b0_kappa
+        
+        kappa_design_matrix = -rho_design_matrix
+        tau_design_matrix   = -sigma_design_matrix - nu * kappa_design_matrix
+        
+        # compute non-stationary kappa and tau vectors evaluated at each vertex
+        kappa = np.exp( b0_kappa + kappa_design_matrix.dot( Q_parameters) ).ravel()
+        tau   = np.exp( b0_tau + tau_design_matrix.dot( Q_parameters) ).ravel()
+    
+        # compute derivatives of kappa and tau w.r.t. the specified hyperparameter
+        dQ_parameters = np.zeros(Q_parameters.shape)
+        dQ_parameters[parameter_index] = 1.0    
+        dkappa = (kappa_design_matrix.dot(dQ_parameters) * kappa).ravel()
+        dtau   = (tau_design_matrix.dot(dQ_parameters) * tau).ravel()
+    
+        # remap kappa and tau and their derivatives into diagonal sparse matrices
+        kappa = scipy.sparse.diags(kappa, format=self.sparse_format)
+        tau = scipy.sparse.diags(tau, format=self.sparse_format)
+        
+        dkappa = scipy.sparse.diags(dkappa, format=self.sparse_format)
+        dtau = scipy.sparse.diags(dtau, format=self.sparse_format)
+        
+        dQdp = self.build_dQdp_native(alpha= alpha, kappa=kappa, tau = tau, dkappa=dkappa, dtau=dtau)
+
+        return dQdp
+    
+    
+    
+    def build_Q_native(self, kappa, tau, alpha):
+        """
+        Build the precision matrix for the latent process vector following method of Lindgren and Rue.
+        
+        This routine uses the native kappa, tau parameterisation.
+        
+        """
+
+        C_tilde = self.build_Q_C_tilde()
+        
+        # C_tilde is diagonal so invert as follows
+        inv_C_tilde = scipy.sparse.diags( 1.0 / C_tilde.diagonal(), format=self.sparse_format)
+        
+        G = self.build_Q_G()
+        
+        K = kappa * C_tilde * kappa + G
+        
+        if alpha % 2 == 0:
+            
+            Q = K * inv_C_tilde * K
+            for i in range(4, alpha+1, 2):
+                Q = K * inv_C_tilde * Q * inv_C_tilde * K
+        else:
+            Q = K
+            for i in range(3, alpha+1, 2):
+                Q = K * inv_C_tilde * Q * inv_C_tilde * K
+        
+        Q = tau * Q * tau
+        
+        return Q
+
+    def build_dQdp_native(self, kappa= 1.0, tau = 1.0, alpha = 2, dkappa=None, dtau=None, level = None):
+        """
+        Build the precision matrix for the latent process vector following method of Lindgren and Rue.
+        
+        This routine uses the native kappa, tau parameterisation.
+        
+        """
+        
+        C_tilde = self.build_Q_C_tilde()
+        
+        # C_tilde is diagonal so invert as follows
+        inv_C_tilde = scipy.sparse.diags( 1.0 / C_tilde.diagonal(), format=self.sparse_format)
+        
+        G = self.build_Q_G()
+        
+        K = kappa * C_tilde * kappa + G        
+        dKdp = dkappa * C_tilde * kappa + kappa * C_tilde * dkappa
+        
+        if alpha % 2 == 0:
+            
+            Q = K * inv_C_tilde * K
+            dQdp = dKdp * inv_C_tilde * K + K * inv_C_tilde * dKdp
+            
+            for i in range(4, alpha+1, 2):
+                
+                dQdp = dKdp * inv_C_tilde * Q * inv_C_tilde * K + \
+                       K * inv_C_tilde * dQdp * inv_C_tilde * K + \
+                       K * inv_C_tilde * Q * inv_C_tilde * dKdp
+                Q = K * inv_C_tilde * Q * inv_C_tilde * K
+        else:
+            Q = K
+            dQdp = dKdp
+            for i in range(3, alpha+1, 2):
+                
+                dQdp = dKdp * inv_C_tilde * Q * inv_C_tilde * K + \
+                       K * inv_C_tilde * dQdp * inv_C_tilde * K + \
+                       K * inv_C_tilde * Q * inv_C_tilde * dKdp
+                Q = K * inv_C_tilde * Q * inv_C_tilde * K
+        
+        dQdp = dtau * Q * tau + \
+                tau * dQdp * tau + \
+                tau * Q * dtau
+        
+        return dQdp
+
+    def build_Q_C_tilde(self):
+        """
+        Build the Q_C matrix.
+        
+        """
+                
+        triangle_vertex_indices = self.triangulation.triangles[:,1:]
+        
+        dT = self.triangle_area(self.triangulation.points, triangle_vertex_indices)
+        
+        indices = triangle_vertex_indices.ravel()
+        data = np.repeat(dT,3) / 3.0
+        
+        Q_C_tilde = scipy.sparse.coo_matrix( (data, (indices,indices) ) )        
+        Q_C_tilde = Q_C_tilde.asformat(self.sparse_format)
+        
+        return Q_C_tilde
+    
+    def build_Q_G(self):
+        """
+        Build the Q_G matrix.
+        
+        """
+        
+        number_of_triangles = self.triangulation.triangles.shape[0]
+        
+        triangle_vertex_indices = self.triangulation.triangles[:,1:]
+        dT = self.triangle_area(self.triangulation.points, triangle_vertex_indices)
+        
+        edges = self.triangle_edges(self.triangulation.points, triangle_vertex_indices).reshape( (number_of_triangles, 3, 3) )
+        
+        # Following einsum for edges_dot is equivalent to np.dot(edges[i,:,:], edges[i,:,:].T)
+        # for all triangles index by i. Can shown to be with:
+        # np.testing.assert_allclose(edges_dot[0,:,:], np.dot(edges[0,:,:], edges[0,:,:].T))       
+        edges_dot = np.einsum('ijk,ilk->ijl', edges, edges)
+        
+        g = 1.0 / (4.0 * np.repeat(dT,9)) * edges_dot.ravel()
+        
+        data = g.ravel()
+        
+        indices_i = np.repeat( triangle_vertex_indices.ravel(), 3 )
+        indices_j = np.tile( triangle_vertex_indices, (1,3) ).ravel()
+        
+        Q_G = scipy.sparse.coo_matrix( (data, (indices_i,indices_j) ) )
+        Q_G = Q_G.asformat(self.sparse_format)
+        
+        return Q_G
+    
+    def build_Q_B(self):
+        """
+        See Lindgren and Rue. Not implemented.
+        
+        """
+        
+        raise NotImplementedError
+
+    def mesh_at_level(self, level = 0, project_onto_sphere = True):
+        """Returns a subdivided icosohedron mesh at a given level"""
+        return MeshIcosahedronSubdivision.build(level, project_onto_sphere = project_onto_sphere)
+    
+    def neighbours_at_level(self, neighbourhood_level = 0, centre_index_at_level = None):
+        """Return indices of vertices the enclosing triangle and surrounding triangles at a given level"""
+        
+        # extract triangles at the subdivision level of the desired set of neighbours defining the subregion of interest
+        mesh_at_neighbourhood_level = self.mesh_at_level(neighbourhood_level)
+        
+        full_resolution_triangle_ids = self.triangulation.triangles[:,0]
+        neighbour_resolution_triangles = mesh_at_neighbourhood_level.triangles
+        
+        # get indices to triangles in neighbourhood that include at least one vertex of the the centre triangle
+        centre_triangle_vertex_indices = neighbour_resolution_triangles[centre_index_at_level,1:]
+        in_neighbourhood = np.any( neighbour_resolution_triangles[:,1:] == centre_triangle_vertex_indices[0], axis = 1 ) | \
+                           np.any( neighbour_resolution_triangles[:,1:] == centre_triangle_vertex_indices[1], axis = 1 ) | \
+                           np.any( neighbour_resolution_triangles[:,1:] == centre_triangle_vertex_indices[2], axis = 1 )
+        
+        neighbour_triangle_ids = neighbour_resolution_triangles[in_neighbourhood,0]
+        
+        neighbourhood_triangle_indices = neighbour_triangle_ids >> MeshIcosahedron.BASE_HASH_SHIFT - np.uint64(2*neighbourhood_level)
+        self_triangle_indices_at_neighbourhood_level = full_resolution_triangle_ids >> MeshIcosahedron.BASE_HASH_SHIFT - np.uint64(2*neighbourhood_level)
+        
+        # accumulate flags for full resolution triangle that are in the desired neighbourhood
+        n_neighbours = len(neighbourhood_triangle_indices)
+
+        in_neighbourhood_full_resolution = np.zeros(self.triangulation.triangles.shape[0], dtype = np.int16)
+        for n in range(n_neighbours):
+            in_neighbourhood_full_resolution += self_triangle_indices_at_neighbourhood_level == neighbourhood_triangle_indices[n]
+
+        # find indices to full resolution triangles that are in the neighbourhood
+        indices_to_neighbourhood = np.where(in_neighbourhood_full_resolution > 0)[0]
+        
+        return indices_to_neighbourhood
+    
+    def super_triangle_at_level(self, super_triangle_level = 0, super_triangle_index = None):
+        """Return indices of vertices within a triangle at a given level"""
+        
+        # bit shift triangle indices to get indices of containing super triangles at the desired level
+        full_resolution_triangle_ids = self.triangulation.triangles[:,0]        
+        indices_at_super_level = full_resolution_triangle_ids >> MeshIcosahedron.BASE_HASH_SHIFT - np.uint64(2*super_triangle_level)
+        
+        # get indices to those triangles in the super triangle with the specified triangle index
+        in_super_triangle = indices_at_super_level == super_triangle_index
+        indices_in_super_triangle = np.where(in_super_triangle)[0]
+        
+        return indices_in_super_triangle
-- 
2.43.0


From 81111ec30fe8392cf737a03b086e73d40a4d90cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:48:37 +0000
Subject: [PATCH 50/93] fix: observation matrices failed where bases reach
 around a wrapped lattice

---
 src/eustace/analysis/advanced_standard/stats/spde/lattice.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/eustace/analysis/advanced_standard/stats/spde/lattice.py b/src/eustace/analysis/advanced_standard/stats/spde/lattice.py
index 5387417..648ad04 100644
--- a/src/eustace/analysis/advanced_standard/stats/spde/lattice.py
+++ b/src/eustace/analysis/advanced_standard/stats/spde/lattice.py
@@ -245,6 +245,10 @@ class LatticeMesh(object):
 
         # find all required non-zero basis functions for each observations
         obs_indices, node_indices = self.locate_nearby_basis_indices(locations)
+
+        # where basis functions reach all the way around a wrapped dimension the same node is found more than once
+        if self.wrap_dimensions is not None:
+            obs_indices, node_indices = np.unique(np.vstack((obs_indices, node_indices)), axis=1)
         
         # form a vector of all required basis evaluations - multi observation, multi basis
         distances = locations[obs_indices,...] - self.nodes[node_indices,...]
-- 
2.43.0


From 2d993cc2a36442f0d4697c6b90a8b0dea9528105 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:52:36 +0000
Subject: [PATCH 51/93] fix: the factor element could not be evaluated as part
 of a combination

---
 src/eustace/analysis/advanced_standard/elements/factor.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/eustace/analysis/advanced_standard/elements/factor.py b/src/eustace/analysis/advanced_standard/elements/factor.py
index 38bd150..7be9140 100644
--- a/src/eustace/analysis/advanced_standard/elements/factor.py
+++ b/src/eustace/analysis/advanced_standard/elements/factor.py
@@ -58,10 +58,12 @@ class SpaceTimeFactorDesign(ElementNonlinearDesign, SpaceTimeSPDEDesign):
         # Stack 'em up
         return scipy.sparse.hstack([ jacobian_space, jacobian_time ], format=SPARSEFORMAT)
 
-    def design_function(self, currentstate):
+    def design_function(self, currentstate, rectified=False):
 
-        v_space = self.space_A.dot(currentstate[:self.space_A.shape[1]])
-        v_time = self.time_A.dot(currentstate[self.space_A.shape[1]:])
+        space_A = numpy.abs(self.space_A) if rectified else self.space_A
+        time_A = numpy.abs(self.time_A) if rectified else self.time_A
+        v_space = space_A.dot(currentstate[:self.space_A.shape[1]])
+        v_time = time_A.dot(currentstate[self.space_A.shape[1]:])
         return v_space * v_time
 
 class SpaceTimeFactorPrior(SpaceTimeSPDEPrior):
-- 
2.43.0


From 853e8b80731a0db2d141ae9637897093e5c2a1c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:52:36 +0000
Subject: [PATCH 52/93] fix: general hyperparameters were returned as a table
 that could not be set again

---
 src/eustace/analysis/advanced_standard/elements/local_view.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/eustace/analysis/advanced_standard/elements/local_view.py b/src/eustace/analysis/advanced_standard/elements/local_view.py
index 887e39e..a82224f 100644
--- a/src/eustace/analysis/advanced_standard/elements/local_view.py
+++ b/src/eustace/analysis/advanced_standard/elements/local_view.py
@@ -196,7 +196,7 @@ class GeneralHyperparameters(Hyperparameters):
         """Retrieve as 1D NumPy array."""
 
         valueslist = [ self.__dict__[key] for key in sorted(self.__dict__)]
-        return numpy.array(valueslist)
+        return numpy.hstack(valueslist)
         
     def set_array(self, values):
         """Set from NumPy array."""
-- 
2.43.0


From 4bc07d1b351dd35895a79211706dc58e6961056f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:52:36 +0000
Subject: [PATCH 53/93] fix: general hyperparameters could not be read from the
 files they were written to

---
 src/eustace/analysis/advanced_standard/elements/local_view.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/eustace/analysis/advanced_standard/elements/local_view.py b/src/eustace/analysis/advanced_standard/elements/local_view.py
index a82224f..3ff5395 100644
--- a/src/eustace/analysis/advanced_standard/elements/local_view.py
+++ b/src/eustace/analysis/advanced_standard/elements/local_view.py
@@ -217,9 +217,9 @@ class GeneralHyperparameters(Hyperparameters):
     def init_from_npy_savefile(filename):
         """Load Q_parameters values from npz save file"""
         
-        parameter_dict = numpy.load(filename)
+        parameter_dict = numpy.load(filename, allow_pickle=True).item()
         
-        return ExpandedHyperparameters(**parameter_dict)
+        return GeneralHyperparameters(**parameter_dict)
         
     def values_to_npy_savefile(self, filename):
         """Write Q_parameters to npy save file"""
-- 
2.43.0


From 3c854e89816ad0baca8d8247c1c4fc7a7ce97a11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:52:36 +0000
Subject: [PATCH 54/93] fix: covariates on grids listed from north to south
 were interpolated upside down

---
 .../analysis/advanced_standard/elements/geography_based.py    | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/eustace/analysis/advanced_standard/elements/geography_based.py b/src/eustace/analysis/advanced_standard/elements/geography_based.py
index bdba4e9..b7ee23e 100644
--- a/src/eustace/analysis/advanced_standard/elements/geography_based.py
+++ b/src/eustace/analysis/advanced_standard/elements/geography_based.py
@@ -68,6 +68,10 @@ class GeographyBasedCovariateFunction(object):
         if nodes_spacing != nodes_spacing_check:
             raise ValueError('Nodes spacing has to be uniform along all the directions!')
 
+        # nodes are ordered by increasing latitude
+        if latitude[0,0] > latitude[-1,0]:
+            covariate = covariate[::-1,:]
+
         # extend covariate vector over longitude and then latitude
         east_extension, west_extension = covariate[:,-1].reshape(-1,1), covariate[:,0].reshape(-1,1)
         covariate = numpy.hstack((east_extension, covariate))
-- 
2.43.0


From 5c81956cc5befce224380925f61cd2984db765e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:06:08 +0000
Subject: [PATCH 55/93] fix: samples of delayed spatial components could not be
 stored in files

---
 .../components/storage_files.py                | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/src/eustace/analysis/advanced_standard/components/storage_files.py b/src/eustace/analysis/advanced_standard/components/storage_files.py
index 265a0ec..4aee8ca 100644
--- a/src/eustace/analysis/advanced_standard/components/storage_files.py
+++ b/src/eustace/analysis/advanced_standard/components/storage_files.py
@@ -289,6 +289,12 @@ class DelayedSpatialComponentSolutionStorage_Files(SpaceTimeComponentSolutionSto
     def partial_state_marginal_std_read(self, time_index):
         return self.state_marginal_std_read(time_index)
 
+    def partial_state_sample_write(self, sample, time_index):
+        return self.state_sample_write(sample, time_index)
+
+    def partial_state_sample_read(self, time_index):
+        return self.state_sample_read(time_index)
+
     def state_write(self, state, state_key):
 
         if self.statefiledictionary_write is None:
@@ -311,13 +317,13 @@ class DelayedSpatialComponentSolutionStorage_Files(SpaceTimeComponentSolutionSto
 
     def state_sample_write(self, sample, state_key):
 
-        if self.samplefiledictionary_write is None:
+        if self.sample_filedictionary_write is None:
             raise ValueError('no state write file specified')
 
-        if state_key not in self.samplefiledictionary_write:
+        if state_key not in self.sample_filedictionary_write:
             raise ValueError('time key mismatch')
 
-        writepickle(state, self.samplefiledictionary_write[state_key])
+        writepickle(sample, self.sample_filedictionary_write[state_key])
 
     def state_read(self, state_key):
         
@@ -341,12 +347,14 @@ class DelayedSpatialComponentSolutionStorage_Files(SpaceTimeComponentSolutionSto
 
     def state_sample_read(self, state_key):
         
-        if self.samplefiledictionary_read is None:
+        if self.sample_filedictionary_read is None:
             return None
 
-        if state_key not in self.samplefiledictionary_read:
+        if state_key not in self.sample_filedictionary_read:
             return None #raise ValueError('time key mismatch')
 
+        return readpickle(self.sample_filedictionary_read[state_key])
+
     def measurement_write(self, measurement, measurement_key):
 
         if self.measurementfiledictionary_write is None:
-- 
2.43.0


From b52224c3ab463993c62828e1ce2ac3d39fc1f271 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:06:08 +0000
Subject: [PATCH 56/93] fix: delayed spatial components never computed the
 samples requested

---
 .../advanced_standard/components/spatialdelayed.py       | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/eustace/analysis/advanced_standard/components/spatialdelayed.py b/src/eustace/analysis/advanced_standard/components/spatialdelayed.py
index 18512ab..e72fc73 100644
--- a/src/eustace/analysis/advanced_standard/components/spatialdelayed.py
+++ b/src/eustace/analysis/advanced_standard/components/spatialdelayed.py
@@ -29,7 +29,8 @@ class DelayedSpatialComponent(SpaceTimeComponent):
     
     def __init__(self, storage, solutionstorage, printstats=False, compute_uncertainties = False, method='EXACT', compute_sample=False, sample_size=1):
 
-        super(DelayedSpatialComponent, self).__init__(storage, solutionstorage, printstats = printstats, compute_uncertainties = compute_uncertainties, method=method)
+        super(DelayedSpatialComponent, self).__init__(storage, solutionstorage, printstats = printstats, compute_uncertainties = compute_uncertainties, method=method,
+                                                      compute_sample=compute_sample, sample_size=sample_size)
         
     def component_solution(self):
         
@@ -157,8 +158,8 @@ class DelayedSpatialComponentSolution(SpaceTimeComponentSolution):
                     self.solutionstorage.partial_state_marginal_std_write(marginal_std, time_index)
                     
             if self.compute_sample:
-                sample = numpy.squeeze(solution.random_sample(self.sample_size))
-                self.solutionstorage.state_sample_write(sample, time_index)
+                sample = solution.random_sample(self.sample_size)
+                self.solutionstorage.partial_state_sample_write(sample, time_index)
   
     def solution_observation_expected_value(self, observations):
 
@@ -202,7 +203,7 @@ class DelayedSpatialComponentSolution(SpaceTimeComponentSolution):
         time_index = observations.time_index()
 
         # Attempt to retrieve solution
-        state = self.solutionstorage.state_sample_read(time_index)
+        state = self.solutionstorage.partial_state_sample_read(time_index)
         
         # Return zeros if can't find it
         if state is None:
-- 
2.43.0


From 6ab97f561188ee6a8a55775032b119ca8c32c652 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:06:08 +0000
Subject: [PATCH 57/93] fix: delayed spatial components with nonlinear elements
 could not be updated

---
 .../analysis/advanced_standard/components/spatialdelayed.py     | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/eustace/analysis/advanced_standard/components/spatialdelayed.py b/src/eustace/analysis/advanced_standard/components/spatialdelayed.py
index e72fc73..0c829dd 100644
--- a/src/eustace/analysis/advanced_standard/components/spatialdelayed.py
+++ b/src/eustace/analysis/advanced_standard/components/spatialdelayed.py
@@ -139,7 +139,7 @@ class DelayedSpatialComponentSolution(SpaceTimeComponentSolution):
             if self.element.isnonlinear():
 
                 # For nonlinear system this is an offset versus linearisation point
-                new_state_estimate = state_update + numpy.squeeze(self.solutionstorage.partial_state_read())
+                new_state_estimate = state_update + numpy.squeeze(self.solutionstorage.partial_state_read(time_index))
 
             else:
 
-- 
2.43.0


From b7aa0a24801d7ecaa8cdad2804f3acf81cce923d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:06:08 +0000
Subject: [PATCH 58/93] fix: samples could not be stored in files named by
 pattern

---
 .../advanced_standard/components/storage_files.py  | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/eustace/analysis/advanced_standard/components/storage_files.py b/src/eustace/analysis/advanced_standard/components/storage_files.py
index 4aee8ca..d47ab06 100644
--- a/src/eustace/analysis/advanced_standard/components/storage_files.py
+++ b/src/eustace/analysis/advanced_standard/components/storage_files.py
@@ -479,8 +479,8 @@ class DelayedSpatialComponentSolutionStorageFlexible_Files(SpaceTimeComponentSol
     def state_sample_read(self, sample_key):
         return self.file_read( self.sample_read_pattern, sample_key )
 
-    def prior_state_sample_read(self, sample, sample_key):
-        self.file_write(sample, self.prior_sample_read_pattern, sample_key)
+    def prior_state_sample_read(self, sample_key):
+        return self.file_read( self.prior_sample_read_pattern, sample_key )
 
     def measurement_read(self, measurement_key):
         return self.file_read(self.measurement_read_pattern, measurement_key)
@@ -500,14 +500,14 @@ class DelayedSpatialComponentSolutionStorageFlexible_Files(SpaceTimeComponentSol
     def partial_state_marginal_std_read(self, std_key):
         return self.state_marginal_std_read(std_key)
         
-    def partial_state_sample_write(self, sample_key):
-        return self.state_sample_write(sample_key)
+    def partial_state_sample_write(self, sample, sample_key):
+        return self.state_sample_write(sample, sample_key)
     
     def partial_state_sample_read(self, sample_key):
         return self.state_sample_read(sample_key)
         
-    def partial_state_prior_sample_write(self, sample_key):
-        return self.prior_state_sample_write(sample_key)
+    def partial_state_prior_sample_write(self, sample, sample_key):
+        return self.prior_state_sample_write(sample, sample_key)
     
     def partial_state_prior_sample_read(self, sample_key):
-        return self.prior_state_sample_write(sample_key)
+        return self.prior_state_sample_read(sample_key)
-- 
2.43.0


From b647789f9d25bb180ac834901c9fdca99ce7b346 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:06:08 +0000
Subject: [PATCH 59/93] fix: a time step without observations prevented the
 solution of a space-time component

---
 .../analysis/advanced_standard/components/spacetime.py        | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/eustace/analysis/advanced_standard/components/spacetime.py b/src/eustace/analysis/advanced_standard/components/spacetime.py
index 8344733..076066e 100644
--- a/src/eustace/analysis/advanced_standard/components/spacetime.py
+++ b/src/eustace/analysis/advanced_standard/components/spacetime.py
@@ -145,7 +145,9 @@ class SpaceTimeComponentSolution(ComponentSolution):
 
     def update_time_step(self):
 
-        self.solutionstorage.measurement_write(self.measurement, self.measurement_time_index)
+        # Nothing to store if this time step had no observations
+        if self.measurement is not None:
+            self.solutionstorage.measurement_write(self.measurement, self.measurement_time_index)
         self.measurement = None
         self.measurement_time_index = None
 
-- 
2.43.0


From dbe36900fe976db34f515706b5a0f89bc9ad3ef7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:06:08 +0000
Subject: [PATCH 60/93] fix: merging measurement updates changed the first of
 those stored

---
 src/eustace/analysis/advanced_standard/components/spacetime.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/eustace/analysis/advanced_standard/components/spacetime.py b/src/eustace/analysis/advanced_standard/components/spacetime.py
index 076066e..46203c7 100644
--- a/src/eustace/analysis/advanced_standard/components/spacetime.py
+++ b/src/eustace/analysis/advanced_standard/components/spacetime.py
@@ -251,7 +251,8 @@ class SpaceTimeComponentSolution(ComponentSolution):
             update = self.solutionstorage.measurement_read(time_index)
 
             if merged_updates is None:
-                merged_updates = update
+                # Copy so that the stored measurement is unchanged
+                merged_updates = MeasurementUpdate(update.information_precision.copy(), update.information_vector.copy())
             else:
                 merged_updates.append_measurement_update(update)
 
-- 
2.43.0


From 128c7e2a72738a6b42015a0c5afd6bf50f4f1c10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:10:32 +0000
Subject: [PATCH 61/93] fix: the updated state of a nonlinear space-time
 component was a table instead of a vector

---
 src/eustace/analysis/advanced_standard/components/spacetime.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/eustace/analysis/advanced_standard/components/spacetime.py b/src/eustace/analysis/advanced_standard/components/spacetime.py
index 46203c7..ba7c820 100644
--- a/src/eustace/analysis/advanced_standard/components/spacetime.py
+++ b/src/eustace/analysis/advanced_standard/components/spacetime.py
@@ -208,7 +208,8 @@ class SpaceTimeComponentSolution(ComponentSolution):
             if self.element.isnonlinear():
 
                 # For nonlinear system this is an offset versus linearisation point
-                new_state_estimate = state_update + self.solutionstorage.state_read()
+                previous_state_estimate = self.solutionstorage.state_read()
+                new_state_estimate = numpy.asarray(state_update).reshape(previous_state_estimate.shape) + previous_state_estimate
 
             else:
 
-- 
2.43.0


From 7e5512753eeab14e1c4b10f414d59c1802ba9b1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:13:58 +0000
Subject: [PATCH 62/93] fix: grid cell averages on grids listed from north to
 south were upside down

---
 .../advanced_standard/fileio/output_structure_rectilinear.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/eustace/analysis/advanced_standard/fileio/output_structure_rectilinear.py b/src/eustace/analysis/advanced_standard/fileio/output_structure_rectilinear.py
index 7d6c94d..258dfcf 100644
--- a/src/eustace/analysis/advanced_standard/fileio/output_structure_rectilinear.py
+++ b/src/eustace/analysis/advanced_standard/fileio/output_structure_rectilinear.py
@@ -80,10 +80,9 @@ class RegriddingRectilinearGridStructure(ObservationStructure):
         """Rearrange latitudes for boosting regridding computations"""
         
         latitudes = self.latitudes.reshape(-1, self.Nlat)
-        latitudes = numpy.tile(latitudes, (len(self.longitudes)/self.Nlon,self.Nlon))
-        reindexer = numpy.argsort(latitudes[:,0])
+        latitudes = numpy.tile(latitudes, (1,self.Nlon))
         
-        return latitudes[reindexer]#, longitudes
+        return numpy.repeat(latitudes, len(self.longitudes)/self.Nlon, axis=0)
 
     def rearrange_longitudes(self):
         """Rearrange longitudes for boosting regridding computations"""
-- 
2.43.0


From 92f4c30a3604695c71ed58de6e607e054bbf7875 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:13:58 +0000
Subject: [PATCH 63/93] fix: samples could not be projected to fewer places
 than the number of blocks

---
 .../analysis/advanced_standard/fileio/output_projector.py     | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/eustace/analysis/advanced_standard/fileio/output_projector.py b/src/eustace/analysis/advanced_standard/fileio/output_projector.py
index 7ef5714..ac10172 100644
--- a/src/eustace/analysis/advanced_standard/fileio/output_projector.py
+++ b/src/eustace/analysis/advanced_standard/fileio/output_projector.py
@@ -175,7 +175,7 @@ class Projector(object):
         
         n_outputs = self.design_matrix.shape[0]
         output = numpy.zeros((n_outputs,1))
-        blocksize = int(n_outputs / self.blocking)
+        blocksize = max(1, int(n_outputs / self.blocking))
         
         n_blocks = int( numpy.ceil( float(n_outputs) / float(blocksize) ) )
         
@@ -206,7 +206,7 @@ class Projector(object):
         
         n_outputs = self.design_matrix.shape[0]
         output = numpy.zeros((n_outputs,1))
-        blocksize = int(n_outputs / self.blocking)
+        blocksize = max(1, int(n_outputs / self.blocking))
         
         n_blocks = int( numpy.ceil( float(n_outputs) / float(blocksize) ) )
         
-- 
2.43.0


From afb5358fff3caf9ab1c667ab724b379f2add132b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:15:28 +0000
Subject: [PATCH 64/93] fix: processing several days at once mixed those of
 delayed spatial components

---
 src/eustace/analysis/advanced_standard/analysissystem.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/eustace/analysis/advanced_standard/analysissystem.py b/src/eustace/analysis/advanced_standard/analysissystem.py
index 6476cca..1cc27ae 100644
--- a/src/eustace/analysis/advanced_standard/analysissystem.py
+++ b/src/eustace/analysis/advanced_standard/analysissystem.py
@@ -7,6 +7,7 @@ import sys
 
 from eustace.analysis.advanced_standard.components.spatial import SpatialComponent
 from eustace.analysis.advanced_standard.components.spacetime import SpaceTimeComponent
+from eustace.analysis.advanced_standard.components.spatialdelayed import DelayedSpatialComponent
 
 from eustace.analysis.advanced_standard.fileio.output_structure_rectilinear import Regridder
 
@@ -173,14 +174,14 @@ class AnalysisSystem(object):
                     # Process these observations
                     component_solution.process_observations(inputs, subtract_offset)
 
-            if isinstance(component, SpatialComponent):
+            if isinstance(component, (SpatialComponent, DelayedSpatialComponent)):
                 # Spatial components update on each substep
                 component_solution.update_time_step()
                 print component_solution
                 for key, value in component_solution.__dict__.iteritems():
                     print key, value
                 
-        if isinstance(component, SpaceTimeComponent):
+        if isinstance(component, SpaceTimeComponent) and not isinstance(component, DelayedSpatialComponent):
             # Space time components update for all times after processing all observations
             component_solution.update_time_step()
 
-- 
2.43.0


From 70014d4ff31ea7c4498bed1d68ae2be09872a31d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:41:39 +0000
Subject: [PATCH 65/93] fix: samples at one time on either side of midnight got
 two rows of the station time axis

---
 src/eustace/outputformats/stationdata.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/eustace/outputformats/stationdata.py b/src/eustace/outputformats/stationdata.py
index 2a7ed0a..56ebcda 100644
--- a/src/eustace/outputformats/stationdata.py
+++ b/src/eustace/outputformats/stationdata.py
@@ -139,9 +139,11 @@ class StationData(object):
     def get_unique_temperature_sample_times(self):
         """Array of unique times based on the MeasurementTime.RESOLUTION."""
 
-        result = [m.time for m in set(
-            [MeasurementTime(sample.time) for sample in self.temperature_samples])]
-        result.sort()
+        # Go through times in order so that those either side of a whole day are compared too
+        result = []
+        for time in sorted([sample.time for sample in self.temperature_samples]):
+            if not result or not (MeasurementTime(time) == MeasurementTime(result[-1])):
+                result.append(time)
         return result
 
     def get_temperature_samples(self, time_axis, variable):
-- 
2.43.0


From 7288e1a38d1bb3849f6e2e4621f5693436e8e293 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:42:41 +0000
Subject: [PATCH 66/93] fix: zeros in station names were the fill value of the
 product and read as missing

---
 src/eustace/outputformats/definitions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/eustace/outputformats/definitions.py b/src/eustace/outputformats/definitions.py
index 1c905f8..66b284d 100644
--- a/src/eustace/outputformats/definitions.py
+++ b/src/eustace/outputformats/definitions.py
@@ -413,7 +413,7 @@ OLD_OCEAN_ANCILLARY_NAMES = ['unc_rand_tas', 'unc_corr_tas', 'unc_syst_tas', 'un
 STATION_NAME = OutputVariable(
     name='station_name',
     dtype=numpy.dtype('S1'),
-    fill_value=numpy.int8(0),
+    fill_value='\0',
     long_name='Station name',
     cf_role='timeseries_id')
 
-- 
2.43.0


From e8444bfdecdd994cdf5f9023a15b81e640c24023 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:42:41 +0000
Subject: [PATCH 67/93] fix: a sample of a station without description replaced
 the values of all stations

---
 src/eustace/outputformats/stationdata.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/eustace/outputformats/stationdata.py b/src/eustace/outputformats/stationdata.py
index 56ebcda..e0af563 100644
--- a/src/eustace/outputformats/stationdata.py
+++ b/src/eustace/outputformats/stationdata.py
@@ -168,6 +168,8 @@ class StationData(object):
         for sample in self.temperature_samples:
             station_index = self.descriptions.get_station_index(
                 sample.station_name)
+            if station_index is None:
+                raise ValueError('No description of station: {0}'.format(sample.station_name))
             time_index = measurement_times.index(MeasurementTime(sample.time))
             value = sample.__dict__[variable.name]
             data[time_index][station_index] = value
-- 
2.43.0


From 5c8a8106d8df0dde4a22445df01880d0fac80e9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:43:04 +0000
Subject: [PATCH 68/93] fix: verification stopped instead of failing when an
 attribute has another type or length

---
 src/eustace/outputformats/verify/verify.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/eustace/outputformats/verify/verify.py b/src/eustace/outputformats/verify/verify.py
index 93c525a..92552d4 100644
--- a/src/eustace/outputformats/verify/verify.py
+++ b/src/eustace/outputformats/verify/verify.py
@@ -1,5 +1,6 @@
 """Verify output format against a defined specification."""
 
+import numpy
 from netCDF4 import Dataset
 
 
@@ -96,10 +97,7 @@ class Verifier(object):
                         outcome = False
                         if meta_key in ncvar.__dict__:
                             test_value = ncvar.__getattribute__(meta_key)
-                            if isinstance(meta_value, list):
-                                outcome = all(meta_value == test_value)
-                            else:
-                                outcome = (meta_value == test_value)
+                            outcome = numpy.array_equal(meta_value, test_value)
                         self.log_outcome(v.name + '.' + meta_key + '=' + str(meta_value), outcome)
 
     def check_dimensions(self, nc, expected):
-- 
2.43.0


From ac2d42e0029304745ff74ef0560d15a9b9b6853c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:43:49 +0000
Subject: [PATCH 69/93] fix: the latitude axis of global fields wrapped the
 north pole to the southernmost cells

---
 src/eustace/outputformats/globalfield.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/eustace/outputformats/globalfield.py b/src/eustace/outputformats/globalfield.py
index 13acf72..7eb3f3c 100644
--- a/src/eustace/outputformats/globalfield.py
+++ b/src/eustace/outputformats/globalfield.py
@@ -9,13 +9,21 @@ from definitions import LONGITUDE
 from definitions import TIME
 import numpy
 
+class GlobalFieldLatitudeAxis(GridFieldAxis):
+    """Latitude axis of global field, in which the north pole belongs to the northernmost cells."""
+
+    def compute_indices(self, values):
+        """Indices along this axis at which the given axis values are located."""
+
+        return super(GlobalFieldLatitudeAxis, self).compute_indices(numpy.where(values == 90.0, 90.0 - 0.5*self.step, values))
+
 class GlobalFieldAxes2D(object):
     """Define coordinate axes for global field."""
 
     def __init__(self):
         """Construct with latitude and longitude properties."""
 
-        self.latitude = GridFieldAxis(zeroth= -90.0-0.5*GLOBAL_FIELD_RESOLUTION, step=GLOBAL_FIELD_RESOLUTION, count=GLOBAL_FIELD_SHAPE[1], var_name=LATITUDE.name, circular=True, units=LATITUDE.units, standard_name=LATITUDE.standard_name, long_name=LATITUDE.long_name)
+        self.latitude = GlobalFieldLatitudeAxis(zeroth= -90.0-0.5*GLOBAL_FIELD_RESOLUTION, step=GLOBAL_FIELD_RESOLUTION, count=GLOBAL_FIELD_SHAPE[1], var_name=LATITUDE.name, circular=False, units=LATITUDE.units, standard_name=LATITUDE.standard_name, long_name=LATITUDE.long_name)
 
         self.longitude = GridFieldAxis(zeroth=-180.0-0.5*GLOBAL_FIELD_RESOLUTION, step=GLOBAL_FIELD_RESOLUTION, count=GLOBAL_FIELD_SHAPE[2], var_name=LONGITUDE.name, circular=True, units=LONGITUDE.units, standard_name=LONGITUDE.standard_name, long_name=LONGITUDE.long_name)
 
-- 
2.43.0


From f2274c6d0ec7ae57a8897f96e70841fed535b8e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:48:15 +0000
Subject: [PATCH 70/93] fix: lists of files to merge were changed while they
 were read, so that some absent sources were kept

---
 src/eustace/outputformats/filesmerger.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/eustace/outputformats/filesmerger.py b/src/eustace/outputformats/filesmerger.py
index 7fee3bc..94308d0 100644
--- a/src/eustace/outputformats/filesmerger.py
+++ b/src/eustace/outputformats/filesmerger.py
@@ -20,7 +20,7 @@ def clean_list_of_outputs_to_merge(outputs_main, outputs_ancillary,number_of_sou
     original_number_of_outputs = len(outputs_main)
 
     indexes_to_remove = []
-    for index, elements in enumerate(zip(outputs_main,outputs_ancillary)):
+    for index, elements in enumerate(zip(list(outputs_main),list(outputs_ancillary))):
         print(elements)
         if elements[0] is not None and os.path.isfile(elements[0]):
 	    number_of_sources += 1
-- 
2.43.0


From 9f9486921032fcf527fa8032bf05109b981d7cc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:48:15 +0000
Subject: [PATCH 71/93] fix: files of different sources were merged when one
 lacked the primary and another the ancillary file

---
 src/eustace/outputformats/filesmerger.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/eustace/outputformats/filesmerger.py b/src/eustace/outputformats/filesmerger.py
index 94308d0..6c062f7 100644
--- a/src/eustace/outputformats/filesmerger.py
+++ b/src/eustace/outputformats/filesmerger.py
@@ -19,6 +19,12 @@ def clean_list_of_outputs_to_merge(outputs_main, outputs_ancillary,number_of_sou
 
     original_number_of_outputs = len(outputs_main)
 
+    # 2nd sanity check: each source has both files or none of them
+    available_main = [name is not None and os.path.isfile(name) for name in outputs_main]
+    available_ancillary = [name is not None and os.path.isfile(name) for name in outputs_ancillary]
+    if available_main != available_ancillary:
+	raise ValueError('Number of primary and ancillary files must be the same')
+
     indexes_to_remove = []
     for index, elements in enumerate(zip(list(outputs_main),list(outputs_ancillary))):
         print(elements)
@@ -33,10 +39,6 @@ def clean_list_of_outputs_to_merge(outputs_main, outputs_ancillary,number_of_sou
 
     print(outputs_main, outputs_ancillary)
 
-    # 2nd sanity check
-    if len(outputs_main) != len(outputs_ancillary):
-	raise ValueError('Number of primary and ancillary files must be the same')
-
     # Labeling elements to be removed as None
     for index_to_remove in indexes_to_remove:
       for sub_list in list_of_indexes:
-- 
2.43.0


From 406fb9a05b8b7e3e92343044c016377c48028173 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:48:37 +0000
Subject: [PATCH 72/93] fix: sources could not be merged when one of them has
 no missing values

---
 src/eustace/outputformats/filesmerger.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/eustace/outputformats/filesmerger.py b/src/eustace/outputformats/filesmerger.py
index 6c062f7..f3882cf 100644
--- a/src/eustace/outputformats/filesmerger.py
+++ b/src/eustace/outputformats/filesmerger.py
@@ -313,7 +313,7 @@ class FilesMerger(object):
     masked_array_field = handle.variables[name][...]
     masked_array_field.data[masked_array_field.data==masked_array_field.fill_value]=new_fill_value
 
-    return masked_array_field.data,masked_array_field.mask
+    return masked_array_field.data,numpy.ma.getmaskarray(masked_array_field)
 
   @staticmethod
   def build_triangular_correlation_matrix(number_of_files,sub_list_of_correlation_indexes):
-- 
2.43.0


From 0d6128fa0db62b3c18322300e21850e59c42c76e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:49:00 +0000
Subject: [PATCH 73/93] fix: merged files went astray when a directory name
 contains the label of the source

---
 src/eustace/outputformats/filesmerger.py | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/src/eustace/outputformats/filesmerger.py b/src/eustace/outputformats/filesmerger.py
index f3882cf..e0efc09 100644
--- a/src/eustace/outputformats/filesmerger.py
+++ b/src/eustace/outputformats/filesmerger.py
@@ -132,8 +132,8 @@ class FilesMerger(object):
 
       # Output files names
       source_label = os.path.basename(outputs_primary[0]).split('_')[4]
-      output_main = outputs_primary[0].replace('_'+source_label,'')
-      output_ancillary = outputs_ancillary[0].replace('_'+source_label,'')
+      output_main = self.name_without_source(outputs_primary[0],source_label)
+      output_ancillary = self.name_without_source(outputs_ancillary[0],source_label)
 
       self.list_of_merged_main_outputs.append(output_main)
       self.list_of_merged_ancillary_outputs.append(output_ancillary)
@@ -165,7 +165,7 @@ class FilesMerger(object):
       datafile = netCDF4.Dataset(i,'r+')
       datafile.setncattr('comment',self.comment_prefix+source_label+' retrievals.')
       datafile.close()
-      new_name = i.replace('_'+source_label,'')
+      new_name = self.name_without_source(i,source_label)
       self.list_of_merged_main_outputs.append(new_name)
       os.rename(i,new_name)
 
@@ -173,7 +173,7 @@ class FilesMerger(object):
       datafile = netCDF4.Dataset(i,'r+')
       datafile.setncattr('comment',self.comment_prefix+source_label+' retrievals.')
       datafile.close()
-      new_name = i.replace('_'+source_label,'')
+      new_name = self.name_without_source(i,source_label)
       self.list_of_merged_ancillary_outputs.append(new_name)
       os.rename(i,new_name)
 
@@ -239,6 +239,13 @@ class FilesMerger(object):
       raise ValueError(message)
 
 
+  @staticmethod
+  def name_without_source(pathname,source_label):
+    """Pathname of the merged file: source label is removed from the filename only, it might also be part of a directory name"""
+
+    directory,filename = os.path.split(pathname)
+    return os.path.join(directory,filename.replace('_'+source_label,''))
+
   @classmethod
   def compute_mean_fields(cls,names,handles,results):
     """Compute grid-box-by-grid-box mean of primary fields for a given number of input files"""
-- 
2.43.0


From 078ddb65e7a7d500ce3e487cafee1da7b3b5b445 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:55:11 +0000
Subject: [PATCH 74/93] fix: saved quality flags could not be loaded when the
 standard name has its status_flag modifier recognised

---
 src/eustace/postprocess/apply_mask.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/eustace/postprocess/apply_mask.py b/src/eustace/postprocess/apply_mask.py
index f1eb773..2c991df 100644
--- a/src/eustace/postprocess/apply_mask.py
+++ b/src/eustace/postprocess/apply_mask.py
@@ -240,7 +240,8 @@ def load_flags(directory, iteration, datestring):
     
     analysis_cubes = iris.load(directory+'/'+datestring[:4]+'/eustace_analysis_'+str(iteration)+'_qc_flags_'+datestring+'.nc')
 
-    cube_names = [analysis_cubes[i].name() for i in range(len(analysis_cubes))]
+    # Identify by long name as the standard name also has a status_flag modifier
+    cube_names = [analysis_cubes[i].long_name for i in range(len(analysis_cubes))]
     print cube_names
     for i in range(len(analysis_cubes)):
         
-- 
2.43.0


From a81e2eb9149c24299fb0a011564cb57d27831815 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:06:48 +0000
Subject: [PATCH 75/93] fix: names of flags in flag files did not match their
 bits (persistent outliers had none) and the last three bits had no masks

---
 src/eustace/postprocess/flags.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/eustace/postprocess/flags.py b/src/eustace/postprocess/flags.py
index 32d3650..645edb4 100644
--- a/src/eustace/postprocess/flags.py
+++ b/src/eustace/postprocess/flags.py
@@ -15,7 +15,7 @@ import numpy
 FLAG_TYPE = numpy.uint16
 TYPE_NAME = 'u2'
 FLAG_MAX_N = 16
-FLAG_MAX_USED = 13
+FLAG_MAX_USED = 16
 NULL_FLAG = FLAG_TYPE(0)
 
 
@@ -63,6 +63,7 @@ FLAG_MEANINGS = ['day_constraint',
                  'areal_high_value_qc',
                  'extreme_low_value_qc',
                  'extreme_high_value_qc',
+                 'persistent_outlier_qc',
                  'marine_location_flag',
                  'location_low_value_qc',
                  'location_high_value_qc',
-- 
2.43.0


From 2104225851de416734a5fc5cfafda6a042afdf89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:07:19 +0000
Subject: [PATCH 76/93] fix: regional statistics were not computed for the last
 rows of grids that are not whole blocks

---
 src/eustace/postprocess/outlier_check.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/eustace/postprocess/outlier_check.py b/src/eustace/postprocess/outlier_check.py
index 1424f71..a899ae3 100644
--- a/src/eustace/postprocess/outlier_check.py
+++ b/src/eustace/postprocess/outlier_check.py
@@ -218,7 +218,7 @@ def block_iqr_by_range(latitudes, longitudes, data_array, range_km, max_latitude
     upper_quartile = numpy.zeros(data_array.shape) + numpy.nan
     
     # get number of blocks
-    n_blocks = int( numpy.ceil(len(latitudes) / latitude_block_size) )
+    n_blocks = int( numpy.ceil(float(len(latitudes)) / latitude_block_size) )
     
     # get grid resolutions
     latitude_grid_resolution = latitudes[1] - latitudes[0]
-- 
2.43.0


From 630b1159ad5891129e4e053e5ba6d6b35bc57065 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:07:19 +0000
Subject: [PATCH 77/93] fix: running means of images with less than ten rows or
 columns were zero

---
 src/eustace/postprocess/outlier_check.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/eustace/postprocess/outlier_check.py b/src/eustace/postprocess/outlier_check.py
index a899ae3..920ef7b 100644
--- a/src/eustace/postprocess/outlier_check.py
+++ b/src/eustace/postprocess/outlier_check.py
@@ -179,8 +179,8 @@ def compute_window_mean(image, window_latitude, window_longitude, padmode_latitu
     
     rolling_mean = numpy.zeros(image_shape)
     
-    latitude_steps = image_shape[0] // blocksize_latitude
-    longitude_steps = image_shape[1] // blocksize_longitude
+    latitude_steps = max(image_shape[0] // blocksize_latitude, 1)
+    longitude_steps = max(image_shape[1] // blocksize_longitude, 1)
     
     
     for latitude_step in range(latitude_steps):
-- 
2.43.0


From dad5a880ac2e01d53dfab7a1a085eef618178aef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:08:08 +0000
Subject: [PATCH 78/93] fix: window and calendar checks stopped when none of
 the neighbouring days or years has flags

---
 src/eustace/postprocess/calendar_check.py |  9 ++++-----
 src/eustace/postprocess/window_check.py   | 10 +++++-----
 2 files changed, 9 insertions(+), 10 deletions(-)

diff --git a/src/eustace/postprocess/calendar_check.py b/src/eustace/postprocess/calendar_check.py
index 0dfc5a8..a536ea7 100644
--- a/src/eustace/postprocess/calendar_check.py
+++ b/src/eustace/postprocess/calendar_check.py
@@ -94,6 +94,10 @@ def calendar_constraint_checks(input_directory, output_directory, iteration, ref
     
         isconstrained = ~(numpy.bitwise_and(reference_flags, target_flag) == target_flag)
         
+        if prior_constraint_count is None:
+            prior_constraint_count = numpy.zeros(isconstrained.shape, numpy.int64)
+        if post_constraint_count is None:
+            post_constraint_count = numpy.zeros(isconstrained.shape, numpy.int64)
         if total_constraint_count is None:
             total_constraint_count = numpy.zeros(isconstrained.shape, numpy.int64)
         total_constraint_count[isconstrained]+=1
@@ -105,11 +109,6 @@ def calendar_constraint_checks(input_directory, output_directory, iteration, ref
         else:
             # check to see if constrained and accumulate prior/post count
 
-            if prior_constraint_count is None:
-                prior_constraint_count = numpy.zeros(isconstrained.shape, numpy.int64)
-            if post_constraint_count is None:
-                post_constraint_count = numpy.zeros(isconstrained.shape, numpy.int64)
-            
             # accumulate number of previous days constrained in window
             if day_to_load.year < reference_time.year:
                 prior_constraint_count[isconstrained]+=1
diff --git a/src/eustace/postprocess/window_check.py b/src/eustace/postprocess/window_check.py
index 0ee7d2f..9e37adf 100644
--- a/src/eustace/postprocess/window_check.py
+++ b/src/eustace/postprocess/window_check.py
@@ -88,6 +88,11 @@ def local_window_constraint_checks(input_directory, output_directory, iteration,
             continue
     
     
+        if prior_constraint_count is None:
+            prior_constraint_count = numpy.zeros(reference_flags.shape, numpy.int64)
+        if post_constraint_count is None:
+            post_constraint_count = numpy.zeros(reference_flags.shape, numpy.int64)
+
         if dayshift == 0:
             # get and keep the flag values for the centre day
             flag_values = reference_flags
@@ -97,11 +102,6 @@ def local_window_constraint_checks(input_directory, output_directory, iteration,
             # apply constraint threshold check for this day
             isconstrained = ~(numpy.bitwise_and(reference_flags, target_flag) == target_flag)
             print isconstrained
-            if prior_constraint_count is None:
-                prior_constraint_count = numpy.zeros(isconstrained.shape, numpy.int64)
-            if post_constraint_count is None:
-                post_constraint_count = numpy.zeros(isconstrained.shape, numpy.int64)
-                
             # number of previous days constrained in window
             if dayshift < 0:
                 prior_constraint_count[isconstrained]+=1
-- 
2.43.0


From 071d6963eb18c00c7e171b2fcfada4da3e3df60d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:16:33 +0000
Subject: [PATCH 79/93] fix: quality control of station data was ignored unless
 a day was given, and stopped when a day and a hold-out list were given

---
 src/eustace/preprocess/fileio/insitu_land.py | 33 +++++++++-----------
 1 file changed, 14 insertions(+), 19 deletions(-)

diff --git a/src/eustace/preprocess/fileio/insitu_land.py b/src/eustace/preprocess/fileio/insitu_land.py
index 7e03201..9c49e7c 100644
--- a/src/eustace/preprocess/fileio/insitu_land.py
+++ b/src/eustace/preprocess/fileio/insitu_land.py
@@ -114,6 +114,7 @@ class ObservationSourceInsituLand(ObservationSource):
         # Restrict by time if requested
         if self.daynumber is None:
             measurement = variable[:]
+            qc_measurement = qc_var[:]
         
         else:
             # argwhere - Finds the indices of array elements that are non-zero, grouped by element
@@ -125,33 +126,27 @@ class ObservationSourceInsituLand(ObservationSource):
                 measurement = variable[dayindex.ravel(), :]
                 time = time[dayindex]
 
-                # the mask is updated so True areas also represent areas where 
-                # qc flags have failed checks  
-                if qc_mask:
-                    # replicate method used for measurement to return data relating to specified day indices 
-                    qc_var_day = qc_var[dayindex.ravel(), :]
-                    # create a mask for areas where the qc flag values are not 0
-                    # this mask - True values - relates to all data that failed qc checks
-                    qc_data_mask = numpy.ma.masked_not_equal(qc_var_day, 0)
-                    # update the measurement mask to additionally mask out areas from the qc data mask, 
-                    # in addition to those areas already masked out
-                    measurement.mask = numpy.logical_or(
-                                       measurement.mask, qc_data_mask)
+                # replicate method used for measurement to return data relating to specified day indices 
+                qc_measurement = qc_var[dayindex.ravel(), :]
 
             else:
                 return None                        
 
+        # the mask is updated so True areas also represent areas where 
+        # qc flags have failed checks  
+        if qc_mask:
+            # create a mask for areas where the qc flag values are not 0
+            # this mask - True values - relates to all data that failed qc checks
+            qc_data_mask = numpy.ma.masked_not_equal(qc_measurement, 0)
+            # update the measurement mask to additionally mask out areas from the qc data mask, 
+            # in addition to those areas already masked out
+            measurement.mask = numpy.logical_or(
+                               measurement.mask, qc_data_mask)
+
         if self.hold_out_dataset:
             # mask out those stations not used for training the learning algorithm
             measurement.mask = numpy.logical_or(measurement.mask, self.identify_validation_stations())
 
-            # the mask is updated so True areas also represent areas where 
-            # qc flags have failed checks  
-            if qc_mask:
-                qc_data_mask = numpy.ma.masked_not_equal(qc_var, 0)
-                measurement.mask = numpy.logical_or(
-                                   measurement.mask, qc_data_mask)
-                                   
         # Formulate output
         all_time = numpy.tile(time, (measurement.shape[1], 1)).transpose()
         all_stations = numpy.tile(numpy.array(range(measurement.shape[1]), numpy.uint64), (measurement.shape[0], 1))
-- 
2.43.0


From 4eea8cf3d762cb6ae7cbcf8f7cb3b5e24fe0b1a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:16:33 +0000
Subject: [PATCH 80/93] fix: station data without missing values had a mask of
 one element

---
 src/eustace/preprocess/fileio/insitu_land.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/eustace/preprocess/fileio/insitu_land.py b/src/eustace/preprocess/fileio/insitu_land.py
index 9c49e7c..c1ef6d6 100644
--- a/src/eustace/preprocess/fileio/insitu_land.py
+++ b/src/eustace/preprocess/fileio/insitu_land.py
@@ -147,6 +147,9 @@ class ObservationSourceInsituLand(ObservationSource):
             # mask out those stations not used for training the learning algorithm
             measurement.mask = numpy.logical_or(measurement.mask, self.identify_validation_stations())
 
+        # Use an element-wise mask also when no value is missing
+        measurement = numpy.ma.masked_array(measurement, mask=numpy.ma.getmaskarray(measurement))
+
         # Formulate output
         all_time = numpy.tile(time, (measurement.shape[1], 1)).transpose()
         all_stations = numpy.tile(numpy.array(range(measurement.shape[1]), numpy.uint64), (measurement.shape[0], 1))
-- 
2.43.0


From 1f36a94194e80940fb365f47b48cba937acd2969 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:16:33 +0000
Subject: [PATCH 81/93] fix: files with a single ship report could not be read

---
 src/eustace/preprocess/fileio/insitu_ocean.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/eustace/preprocess/fileio/insitu_ocean.py b/src/eustace/preprocess/fileio/insitu_ocean.py
index 3f7a957..70038e1 100644
--- a/src/eustace/preprocess/fileio/insitu_ocean.py
+++ b/src/eustace/preprocess/fileio/insitu_ocean.py
@@ -78,6 +78,9 @@ class ObservationSourceInsituOceanHadNMAT2(ObservationSource):
         textfile.seek(0)
         txtdata = numpy.genfromtxt(textfile, delimiter=HadNMAT2Format.FIELDWIDTH, usecols=format.usecols, names=HadNMAT2Format.FIELDS, dtype=HadNMAT2Format.DTYPES, comments=None)
 
+        # a file with a single report gives a scalar
+        txtdata = numpy.atleast_1d(txtdata)
+
         # build coordinates
         self.coords = numpy.vstack([ 
                 txtdata[HadNMAT2Format.LAT] * HadNMAT2Format.LOCATION_SCALE, 
-- 
2.43.0


From 6b3cc039f9bbc6ef0f4595b9f1d58de5a68144c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:16:33 +0000
Subject: [PATCH 82/93] fix: files with a single lake report could not be read

---
 src/eustace/surfaceairmodel/fileio/lake.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/eustace/surfaceairmodel/fileio/lake.py b/src/eustace/surfaceairmodel/fileio/lake.py
index 39ea384..1d28895 100644
--- a/src/eustace/surfaceairmodel/fileio/lake.py
+++ b/src/eustace/surfaceairmodel/fileio/lake.py
@@ -43,6 +43,9 @@ class ObservationSourceLakeReading(ObservationSource):
         # parse tab-delimted format
         txtdata = numpy.genfromtxt(filename, names=True, converters={ObservationSourceLakeReading.COLUMN_DATETIME: ObservationSourceLakeReading.parse_date}, dtype=numpy.float32)
 
+        # a file with a single report gives a scalar
+        txtdata = numpy.atleast_1d(txtdata)
+
         # signatures for each location so we can spot duplicates
         location_signature = \
             numpy.int64(360 * 1000000 * txtdata[ObservationSourceLakeReading.COLUMN_LAT]) + \
-- 
2.43.0


From 66a5263960dad7adbba259b9ff1c3bfccb5b0688 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:16:33 +0000
Subject: [PATCH 83/93] fix: lakes at different latitude and longitude could
 get the location of one another

---
 src/eustace/surfaceairmodel/fileio/lake.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/eustace/surfaceairmodel/fileio/lake.py b/src/eustace/surfaceairmodel/fileio/lake.py
index 1d28895..210f46d 100644
--- a/src/eustace/surfaceairmodel/fileio/lake.py
+++ b/src/eustace/surfaceairmodel/fileio/lake.py
@@ -48,7 +48,7 @@ class ObservationSourceLakeReading(ObservationSource):
 
         # signatures for each location so we can spot duplicates
         location_signature = \
-            numpy.int64(360 * 1000000 * txtdata[ObservationSourceLakeReading.COLUMN_LAT]) + \
+            numpy.int64(      1000000 * txtdata[ObservationSourceLakeReading.COLUMN_LAT]) * (360 * 1000000) + \
             numpy.int64(      1000000 * txtdata[ObservationSourceLakeReading.COLUMN_LON])
 
         # find duplicate signatures
-- 
2.43.0


From 76db50229286e9348a7ca5c11280cb8257d14209 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:25:15 +0000
Subject: [PATCH 84/93] fix: ice model stopped when an uncertainty field has no
 missing values

---
 src/eustace/surfaceairmodel/model_ice.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/eustace/surfaceairmodel/model_ice.py b/src/eustace/surfaceairmodel/model_ice.py
index d5c003a..1ae02a7 100644
--- a/src/eustace/surfaceairmodel/model_ice.py
+++ b/src/eustace/surfaceairmodel/model_ice.py
@@ -384,9 +384,9 @@ class ModelIceObservableProcessor(object):
         indices = numpy.nonzero(combined_mask.ravel() == False)
 
         # Check necessary uncertainty components present
-        missing = numpy.nonzero(input_uncorrelated_uncertainty.mask.ravel()[indices])[0].tolist() + \
-                  numpy.nonzero(input_synoptically_correlated_uncertainty.mask.ravel()[indices])[0].tolist() + \
-                  numpy.nonzero(input_large_scale_correlated_uncertainty.mask.ravel()[indices])[0].tolist()
+        missing = numpy.nonzero(numpy.ma.getmaskarray(input_uncorrelated_uncertainty).ravel()[indices])[0].tolist() + \
+                  numpy.nonzero(numpy.ma.getmaskarray(input_synoptically_correlated_uncertainty).ravel()[indices])[0].tolist() + \
+                  numpy.nonzero(numpy.ma.getmaskarray(input_large_scale_correlated_uncertainty).ravel()[indices])[0].tolist()
 
         if len(missing):
             sys.stderr.write('WARNING: not all observations have uncertainty information (ignoring those without it).\n')
-- 
2.43.0


From 3e604e64d01f68508b8b789c44b4a43e3c87fafe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:25:15 +0000
Subject: [PATCH 85/93] fix: ice model accepted a land mask of another shape

---
 src/eustace/surfaceairmodel/model_ice_input_processing.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/eustace/surfaceairmodel/model_ice_input_processing.py b/src/eustace/surfaceairmodel/model_ice_input_processing.py
index c9124dc..518479e 100644
--- a/src/eustace/surfaceairmodel/model_ice_input_processing.py
+++ b/src/eustace/surfaceairmodel/model_ice_input_processing.py
@@ -67,7 +67,7 @@ class IceSurfaceTemperatureQualityControl(object):
             raise ValueError('surface_temperature_3d matrix shape not consistent with surface_temperature')
         if surface_temperature.shape != Nobs3d.shape[1:3]:
             raise ValueError('Nobs3d matrix shape not consistent with surface_temperature')
-        if land_mask.shape != land_mask.shape:
+        if surface_temperature.shape != land_mask.shape:
             raise ValueError('land_mask matrix shape not consistent with surface_temperature')
         if surface_temperature.shape != sea_ice_fraction.shape:
             raise ValueError('sea_ice_fraction matrix shape not consistent with surface_temperature')
-- 
2.43.0


From 428c97b342f2535c4d056ed4f566cd040f38627f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:25:15 +0000
Subject: [PATCH 86/93] fix: command line of the ice model ended with an error
 after writing its output

---
 src/eustace/surfaceairmodel/run_ice.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/eustace/surfaceairmodel/run_ice.py b/src/eustace/surfaceairmodel/run_ice.py
index f5bac57..65a3433 100644
--- a/src/eustace/surfaceairmodel/run_ice.py
+++ b/src/eustace/surfaceairmodel/run_ice.py
@@ -54,7 +54,7 @@ def main():
     args = parser.parse_args()
 
     # run it
-    run_day(modulename='eustace.surfaceairmodel.run_ice', catalogue_id='(NO CATALOGUE IN USE)', **args.__dict__).run()
+    run_day(modulename='eustace.surfaceairmodel.run_ice', catalogue_id='(NO CATALOGUE IN USE)', **args.__dict__)
 
 if __name__ == '__main__':
     main()
-- 
2.43.0


From 41355ee07e00ce144768502624c704798953ac80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:28:46 +0000
Subject: [PATCH 87/93] fix: land cells with minimum above maximum were kept in
 fields without missing values

---
 src/eustace/surfaceairmodel/fileio/post_processing.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/eustace/surfaceairmodel/fileio/post_processing.py b/src/eustace/surfaceairmodel/fileio/post_processing.py
index 8f7b2f1..1683a71 100644
--- a/src/eustace/surfaceairmodel/fileio/post_processing.py
+++ b/src/eustace/surfaceairmodel/fileio/post_processing.py
@@ -9,10 +9,10 @@ def apply_land_post_processing(results, surface_dependent_variables):
 
     tasmindata = results[TASMIN.name][:]
     tasmaxdata = results[TASMAX.name][:]
-    update_mask = numpy.logical_and(numpy.logical_and((tasmindata.data!=tasmindata.fill_value) ,(tasmaxdata.data!=tasmaxdata.fill_value)), tasmindata.data > tasmaxdata.data)
+    update_mask = numpy.ma.filled(tasmindata > tasmaxdata, False)
 
     results['problematic_pixels_count'] = update_mask.sum()
     for variable in [TASMIN, TASMINUNCERTAINTY, TASMAX, TASMAXUNCERTAINTY]+surface_dependent_variables:
-      results[variable.name][:].mask = numpy.logical_or(results[variable.name][:].mask, update_mask)
+      results[variable.name][update_mask] = numpy.ma.masked
       results[variable.name][:].data[:] = results[variable.name][:].filled()
 
-- 
2.43.0


From 9bfe84d752c826db599156580056f4781720725f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:28:58 +0000
Subject: [PATCH 88/93] fix: observations of fields without missing values had
 a mask of one element

---
 src/eustace/surfaceairmodel/fileio/cubemap.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/eustace/surfaceairmodel/fileio/cubemap.py b/src/eustace/surfaceairmodel/fileio/cubemap.py
index 82dd010..6eaabb0 100644
--- a/src/eustace/surfaceairmodel/fileio/cubemap.py
+++ b/src/eustace/surfaceairmodel/fileio/cubemap.py
@@ -76,7 +76,7 @@ class ObservationSourceCubeMapGrid(ObservationSource, CubeList):
         locallycorrelatederror = [ self.get_field_by_name(mapname).data.data.ravel() for mapname in obsmap.locallycorrelatederror ]
         localcorrelationscale = obsmap.localcorrelationscale
         return Observations(
-            measurement.data.mask.ravel(), 
+            numpy.ma.getmaskarray(measurement.data).ravel(), 
             time, 
             location, 
             measurement.data.data.ravel(), 
-- 
2.43.0


From 1d687a6c094d23e492a62b11da91ff23c0af5222 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:29:07 +0000
Subject: [PATCH 89/93] fix: command lines of the land and ocean models named
 arguments that do not exist

---
 src/eustace/surfaceairmodel/run_land.py  | 2 +-
 src/eustace/surfaceairmodel/run_ocean.py | 3 +--
 2 files changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/eustace/surfaceairmodel/run_land.py b/src/eustace/surfaceairmodel/run_land.py
index d629232..3e4e28e 100644
--- a/src/eustace/surfaceairmodel/run_land.py
+++ b/src/eustace/surfaceairmodel/run_land.py
@@ -175,7 +175,7 @@ def main():
     run_day(catalogue_id='(NO CATALOGUE IN USE)',institution = args.institution,
 	      output_main=args.output_main,output_ancillary=args.output_ancillary,
 	      input_model_1=args.input_model1_parameters,input_model_2=args.input_model2_parameters,input_model_3=args.input_model3_parameters,
-	      input_satellite_land_day=args.inpu_day,input_satellite_land_night=args.inputnight,
+	      input_satellite_land_day=args.inputday,input_satellite_land_night=args.inputnight,
 	      input_satellite_land_snow=args.inputsnow,
 	      input_satellite_land_mask_north=args.inputmasknord,input_satellite_land_mask_south=args.inputmasksouth,
 	      input_satellite_land_DEM=args.inputDEM,
diff --git a/src/eustace/surfaceairmodel/run_ocean.py b/src/eustace/surfaceairmodel/run_ocean.py
index 69e66c0..1bbd8d9 100644
--- a/src/eustace/surfaceairmodel/run_ocean.py
+++ b/src/eustace/surfaceairmodel/run_ocean.py
@@ -119,8 +119,7 @@ def main():
 
     run_day(catalogue_id='(NO CATALOGUE IN USE)',institution = args.institution,
 	      output_main=args.output_main,output_ancillary=args.output_ancillary,
-	      input_model_paramters=args.input_model_parameters,input_model_uncertainty=args.input_model_uncertainty,input_model_stdev=args.input_model_stdev,
-	      input_satellite_land_day=args.inpu_day,input_satellite_land_night=args.inputnight,
+	      input_model_parameters=args.input_model_parameters,input_model_uncertainty=args.input_model_uncertainty,input_model_stdev=args.input_model_stdev,
 	      input_satellite_ocean=args.input_satellite_ocean)
 
 if __name__ == '__main__':
-- 
2.43.0


From d1412bf9292846de58aca1b54053ceff3fbd68df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:50:20 +0000
Subject: [PATCH 90/93] fix: C++ location lookup refuses identifiers beyond the
 table instead of reading outside it

---
 src/cpp/eustace/analysis/inputmanager.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cpp/eustace/analysis/inputmanager.h b/src/cpp/eustace/analysis/inputmanager.h
index 6b6ce94..c453dca 100644
--- a/src/cpp/eustace/analysis/inputmanager.h
+++ b/src/cpp/eustace/analysis/inputmanager.h
@@ -99,7 +99,7 @@ namespace EUSTACE
 
     const LocationEntry& ComputeLocationLookup(uint64_t location_id) const
     { 
-      return location_lookup->Lookup()[location_id];
+      return location_lookup->Lookup().at(location_id);
     }
 
   private:
-- 
2.43.0


From eeeefc2f1d61f178e704b7302af9329de434ebd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:35:31 +0000
Subject: [PATCH 91/93] fix: descriptors with one operation per day never
 computed the solution of the last iteration

The solve operation with a prior sample computes only the prior sample
---
 src/eumopps/catalogue/jsonfiller.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/eumopps/catalogue/jsonfiller.py b/src/eumopps/catalogue/jsonfiller.py
index c2f1f5c..daefaf9 100644
--- a/src/eumopps/catalogue/jsonfiller.py
+++ b/src/eumopps/catalogue/jsonfiller.py
@@ -134,13 +134,20 @@ class FullstaceJsonFiller(object):
         for iteration_index in range(self.n_iterations):
             # Filling climatology
             measurement_climatology = self.fill_single_measurement_operation_space_time(iteration_index, 0, self.measurement_climatology_command, self.measurement_climatology_name)
-            solution_climatology =self.fill_single_solution_operation_space_time(iteration_index, 0, self.solution_climatology_command, self.solution_climatology_name, self.measurement_climatology_name)
+            solution_climatology =self.fill_single_posterior_solution_operation_space_time(iteration_index, 0, self.solution_climatology_command, self.solution_climatology_name, self.measurement_climatology_name)
+            operations += [measurement_climatology, solution_climatology]
+            if iteration_index==(self.n_iterations-1):
+                # The solve operation computes either posterior or prior sample so the prior one needs an operation of its own
+                operations += [self.fill_single_prior_solution_operation_space_time(iteration_index, 0, self.solution_climatology_command, self.solution_climatology_name, self.measurement_climatology_name)]
             # Filling large scale
             measurement_large_scale = self.fill_single_measurement_operation_space_time(iteration_index, 1, self.measurement_large_scale_command, self.measurement_large_scale_name)
-            solution_large_scale = self.fill_single_solution_operation_space_time(iteration_index, 1, self.solution_large_scale_command, self.solution_large_scale_name, self.measurement_large_scale_name)
+            solution_large_scale = self.fill_single_posterior_solution_operation_space_time(iteration_index, 1, self.solution_large_scale_command, self.solution_large_scale_name, self.measurement_large_scale_name)
+            operations += [measurement_large_scale, solution_large_scale]
+            if iteration_index==(self.n_iterations-1):
+                operations += [self.fill_single_prior_solution_operation_space_time(iteration_index, 1, self.solution_large_scale_command, self.solution_large_scale_name, self.measurement_large_scale_name)]
             # Filling local scale
             meas_sol_local = self.fill_single_operation_space(iteration_index, 2)
-            operations += [measurement_climatology, solution_climatology, measurement_large_scale, solution_large_scale, meas_sol_local]
+            operations += [meas_sol_local]
         self.fill_output_gridding()
         operations += [self.output_gridding_dict]
         
-- 
2.43.0


From fe750ac371affe7b51318b7a80e56222a5635c3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:35:31 +0000
Subject: [PATCH 92/93] fix: descriptors in batches left the component index of
 the gridding operation empty

---
 src/eumopps/catalogue/jsonfiller.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/eumopps/catalogue/jsonfiller.py b/src/eumopps/catalogue/jsonfiller.py
index daefaf9..94a6903 100644
--- a/src/eumopps/catalogue/jsonfiller.py
+++ b/src/eumopps/catalogue/jsonfiller.py
@@ -483,7 +483,7 @@ class FullstaceJsonFiller(object):
         new_dict['newdatasets'].append( local_dataset )
         
         # remove unnecessary keys
-        for to_remove in ['inputsources', 'time_index']:                                                                                                   
+        for to_remove in ['inputsources', 'time_index', 'component_index']:                                                                                                   
             if to_remove in new_dict['runmodule']:
                 del new_dict['runmodule'][to_remove]
                  
-- 
2.43.0


From 7696491af11f0d24e05742cdd5ed9b6b08de5585 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:20:56 +0000
Subject: [PATCH 93/93] fix: catalogues with unused members of archives can be
 saved as NetCDF

---
 src/eumopps/netcdfobjects/netcdfobjects.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/eumopps/netcdfobjects/netcdfobjects.py b/src/eumopps/netcdfobjects/netcdfobjects.py
index 7ecfe97..bb53fc3 100644
--- a/src/eumopps/netcdfobjects/netcdfobjects.py
+++ b/src/eumopps/netcdfobjects/netcdfobjects.py
@@ -506,10 +506,13 @@ def save_string_list2d(group, membername, array2d, dimensionname):
     # Name used to store length of strings
     lengthname = STRING_LENGTH_DIMENSION_FORMAT.format(membername)
 
+    # Second dimension has the member name unless the leading one has it already
+    dimensionname2 = membername if (membername != dimensionname) else membername + "2"
+
     # Build new variable
-    group.createDimension(membername, max([ len(element) if element else 0 for element in array2d]))
+    group.createDimension(dimensionname2, max([ len(element) if element else 0 for element in array2d]))
     group.createDimension(lengthname, max_length)
-    group.createVariable(membername, 'S1', [dimensionname, membername, lengthname])
+    group.createVariable(membername, 'S1', [dimensionname, dimensionname2, lengthname])
 
     # populate contents
     for index, element in enumerate(array2d):
-- 
2.43.0

