From 7ce340ff8acd5fd0151789ffe29ef98e0c58a70b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:21:31 +0000
Subject: [PATCH 01/95] fix: store imports echidna.limit.summary, which no
 longer exists

The module could not be imported at all, nor could fit or limit; neither
Summary nor ReducedSummary is used in it.
---
 echidna/output/store.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/echidna/output/store.py b/echidna/output/store.py
index 9a94df9..905a0de 100644
--- a/echidna/output/store.py
+++ b/echidna/output/store.py
@@ -3,7 +3,6 @@ import numpy
 from echidna.core.spectra import Spectra
 from echidna.core.config import (SpectraConfig, SpectraParameter,
                                  SpectraFitConfig, GlobalFitConfig)
-from echidna.limit.summary import Summary, ReducedSummary
 from echidna.fit.fit_results import FitResults, LimitResults
 from echidna.fit.minimise import GridSearch
 
-- 
2.43.0


From 4632a348f0e44d64c2727dc04df52196436efd16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:21:31 +0000
Subject: [PATCH 02/95] fix: store loaders turn read errors into default values

Only a missing attribute or dataset may fall back to the default: with a
bare except, an I/O error (or an interrupt) while reading gave a spectrum
without its background name or limit results with all-zero penalty terms
and best fits.
---
 echidna/output/store.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/echidna/output/store.py b/echidna/output/store.py
index 905a0de..e828cac 100644
--- a/echidna/output/store.py
+++ b/echidna/output/store.py
@@ -258,7 +258,7 @@ def load(file_path):
             spec_name = group.attrs["name"]
             try:
                 background_name = group.attrs["background_name"]
-            except:
+            except KeyError:
                 background_name = None
             num_decays = group.attrs["num_decays"]
             config_name = group.attrs["config_name"]
@@ -332,7 +332,7 @@ def _load_old(file_path):
         spec._raw_events = file_.attrs["raw_events"]
         try:
             spec._bipo = file_.attrs["bipo"]
-        except:
+        except KeyError:
             spec._bipo = 0
         style_dict = file_.attrs["style"]
         if len(style_dict) > 0:
@@ -460,12 +460,12 @@ def load_limit_results(file_path):
                                      name)
         try:
             limit_results._penalty_terms = group["penalty_terms"].value
-        except:
+        except KeyError:
             pass
         limit_results._stats = group["stats"].value
         try:
             limit_results._best_fits = group["best_fits"].value
-        except:
+        except KeyError:
             pass
         if group.attrs["fits_exist"] == 1.:
             for i in range(len(limit_results._stats)):
-- 
2.43.0


From 6276c35f7bce65798e01b5428a422c8c12e9e3cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:21:31 +0000
Subject: [PATCH 03/95] fix: rejected spectrum dump destroys the existing file

store.dump raised ValueError for a spectrum without a background name
only after it had truncated (or added a partial group to) the file.
---
 echidna/output/store.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/echidna/output/store.py b/echidna/output/store.py
index e828cac..e77aace 100644
--- a/echidna/output/store.py
+++ b/echidna/output/store.py
@@ -86,6 +86,8 @@ def dump(file_path, spectrum, append=False, overwrite=False):
       spectrum (:class:`spectra.Spectra`): The spectrum to save
     """
     group_name = "spectrum"
+    # May raise ValueError, so get this before touching the file
+    background_name = spectrum.get_background_name()
     if append:
         file_opt = "a"
     else:
@@ -96,7 +98,7 @@ def dump(file_path, spectrum, append=False, overwrite=False):
             del file_[group_name]
         group = file_.create_group(group_name)
         group.attrs["name"] = spectrum.get_name()
-        group.attrs["background_name"] = spectrum.get_background_name()
+        group.attrs["background_name"] = background_name
         group.attrs["config_name"] = spectrum.get_config().get_name()
         group.attrs["config"] = json.dumps(spectrum.get_config().dump())
         if spectrum.get_fit_config():
-- 
2.43.0


From 2899508be67516777b03e24eac59a6c0f4b98c32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:24:59 +0000
Subject: [PATCH 04/95] fix: global fit config without spectral parameters
 cannot be re-loaded

GlobalFitConfig.dump returns an empty spectral dictionary in that case,
which GlobalFitConfig.load rejected with KeyError: fit results (and the pair
of YAML files) of a fit with only global parameters could be saved but not
loaded. The empty global dictionary was accepted already.
---
 echidna/core/config.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/echidna/core/config.py b/echidna/core/config.py
index c1cbadf..ade198c 100644
--- a/echidna/core/config.py
+++ b/echidna/core/config.py
@@ -467,7 +467,7 @@ class GlobalFitConfig(Config):
 
         # Add spectral fit parameters:
         main_key = "spectral_fit_parameters"
-        if not spectral_config.get(main_key):
+        if main_key not in spectral_config.keys():
             logging.getLogger("extra").debug("\n\n%s\n" % str(spectral_config))
             raise KeyError("Cannot read spectra fit config dictionary. "
                            "Please check it has the correct form")
-- 
2.43.0


From ec134e127707dec07dd4bb4b96ac65ed77e411ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:24:59 +0000
Subject: [PATCH 05/95] fix: GlobalFitConfig.load ignores the requested config
 name

The loop over global parameters re-used the variable, so the config was
named after its last global parameter, and saved fit and limit results
came back with a different fit config name.
---
 echidna/core/config.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/echidna/core/config.py b/echidna/core/config.py
index ade198c..baba092 100644
--- a/echidna/core/config.py
+++ b/echidna/core/config.py
@@ -440,23 +440,23 @@ class GlobalFitConfig(Config):
                            "Please check it has the correct form")
         for dim in global_config[main_key]:
             for syst in global_config[main_key][dim]:
-                name = dim + "_" + syst
+                par_name = dim + "_" + syst
                 if syst == 'resolution' or syst == 'resolution_ly':
-                    parameters[name] = {
+                    parameters[par_name] = {
                         'par': ResolutionParameter(
-                            name, dimension=dim,
+                            par_name, dimension=dim,
                             **global_config[main_key][dim][syst]),
                         'type': 'global'}
                 elif syst == 'shift':
-                    parameters[name] = {
+                    parameters[par_name] = {
                         'par': ShiftParameter(
-                            name, dimension=dim,
+                            par_name, dimension=dim,
                             **global_config[main_key][dim][syst]),
                         'type': 'global'}
                 elif syst == 'scale':
-                    parameters[name] = {
+                    parameters[par_name] = {
                         'par': ScaleParameter(
-                            name, dimension=dim,
+                            par_name, dimension=dim,
                             **global_config[main_key][dim][syst]),
                         'type': 'global'}
                 else:
-- 
2.43.0


From b9d729bc2e2768a33a97dd0b813f0a2fec38ad3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:24:59 +0000
Subject: [PATCH 06/95] fix: blank config name does not select the name of the
 file

load_from_file documents that name="" gives the config the name of its
file, but `if not name` made that branch unreachable.
---
 echidna/core/config.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/echidna/core/config.py b/echidna/core/config.py
index baba092..ea582ca 100644
--- a/echidna/core/config.py
+++ b/echidna/core/config.py
@@ -505,7 +505,7 @@ class GlobalFitConfig(Config):
                 open(sf_filename, "r"))
         else:
             spectral_fit_config = None
-        if not name:
+        if name is None:
             return cls.load(config, spectral_config=spectral_fit_config)
         if name == "":
             name = filename[filename.rfind("/")+1:filename.rfind(".")]
@@ -650,7 +650,7 @@ class SpectraFitConfig(Config):
             parameters in the file.
         """
         config = yaml_loader.ordered_load(open(filename, 'r'))
-        if not name:
+        if name is None:
             return cls.load(config, spectra_name)
         if name == "":
             name = filename[filename.rfind("/")+1:filename.rfind(".")]
@@ -774,7 +774,7 @@ class SpectraConfig(Config):
         """
         with open(filename, 'r') as stream:
             config = yaml_loader.ordered_load(stream)
-        if not name:
+        if name is None:
             return cls.load(config)
         if name == "":
             name = filename[filename.rfind("/")+1:filename.rfind(".")]
-- 
2.43.0


From 74305aed1c4393ee8c2693f6714303822c189b46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:24:59 +0000
Subject: [PATCH 07/95] fix: parameter dictionary holds the best fit as the
 penalty term

So the penalty term of every fit parameter was replaced by its best-fit
value when a config, spectrum, fit or limit was saved and re-loaded.
---
 echidna/core/parameter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/echidna/core/parameter.py b/echidna/core/parameter.py
index 2695d42..b0fef26 100644
--- a/echidna/core/parameter.py
+++ b/echidna/core/parameter.py
@@ -630,7 +630,7 @@ class FitParameter(Parameter):
         # Add non-basic attributes
         parameter_dict["current_value"] = self._current_value
         parameter_dict["best_fit"] = self._best_fit
-        parameter_dict["penalty_term"] = self._best_fit
+        parameter_dict["penalty_term"] = self._penalty_term
         return parameter_dict
 
 
-- 
2.43.0


From bc644d932ee230739ba949f821db7b08d16a974c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:27:40 +0000
Subject: [PATCH 08/95] fix: fit config cannot be written to YAML after a fit

The values set by a fit are numpy floats, which the YAML SafeDumper rejects
half way through the file.
---
 echidna/core/parameter.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/echidna/core/parameter.py b/echidna/core/parameter.py
index b0fef26..22caf96 100644
--- a/echidna/core/parameter.py
+++ b/echidna/core/parameter.py
@@ -628,9 +628,11 @@ class FitParameter(Parameter):
         if basic:
             return parameter_dict
         # Add non-basic attributes
-        parameter_dict["current_value"] = self._current_value
-        parameter_dict["best_fit"] = self._best_fit
-        parameter_dict["penalty_term"] = self._penalty_term
+        # These are numpy floats after a fit, which YAML cannot represent
+        for key, value in (("current_value", self._current_value),
+                           ("best_fit", self._best_fit),
+                           ("penalty_term", self._penalty_term)):
+            parameter_dict[key] = value if value is None else float(value)
         return parameter_dict
 
 
-- 
2.43.0


From 02b88d5eab557fdfe9850653952c9167001660af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:27:40 +0000
Subject: [PATCH 09/95] fix: FitParameter.set_par fails on None and leaves
 stale values

The log message formats every value as a number, so sigma=None, dimension or
an unset flag raises before anything is set; an unknown keyword raises
KeyError, not the documented TypeError, leaving _values stale; and the number
of bins becomes a float, which no array shape accepts.
---
 echidna/core/parameter.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/echidna/core/parameter.py b/echidna/core/parameter.py
index 22caf96..b40ef06 100644
--- a/echidna/core/parameter.py
+++ b/echidna/core/parameter.py
@@ -556,9 +556,12 @@ class FitParameter(Parameter):
         Raises:
           TypeError: Unknown variable type passed as a kwarg.
         """
+        self._logger.warning("Setting _values and _bin_boundaries to None")
+        self._values = None
+        self._bin_boundaries = None
         for kw in kwargs:
-            self._logger.warning("Updating value for %s (%.4g --> %.4g)" %
-                                 (kw, self.__dict__["_"+kw], kwargs[kw]))
+            self._logger.warning("Updating value for %s (%s --> %s)" %
+                                 (kw, self.__dict__.get("_"+kw), kwargs[kw]))
             if kw == "prior":
                 self._prior = float(kwargs[kw])
             elif kw == "sigma":
@@ -571,7 +574,7 @@ class FitParameter(Parameter):
             elif kw == "high":
                 self._high = float(kwargs[kw])
             elif kw == "bins":
-                self._bins = float(kwargs[kw])
+                self._bins = int(kwargs[kw])
             elif kw == "logscale":
                 self._logscale = bool(kwargs[kw])
             elif kw == "base":
@@ -582,9 +585,6 @@ class FitParameter(Parameter):
                 self._dimension = str(kwargs[kw])
             else:
                 raise TypeError("Unhandled parameter name / type %s" % kw)
-        self._logger.warning("Setting _values and _bin_boundaries to None")
-        self._values = None
-        self._bin_boundaries = None
 
     def set_penalty_term(self, penalty_term):
         """ Set value for :attr:`_penalty_term`.
-- 
2.43.0


From de3b5c21efab701e85d1da494c9dca7a4a6c6880 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:27:40 +0000
Subject: [PATCH 10/95] fix: logscale_deviation passes a float as a number of
 points

---
 echidna/core/parameter.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/echidna/core/parameter.py b/echidna/core/parameter.py
index b40ef06..2d47048 100644
--- a/echidna/core/parameter.py
+++ b/echidna/core/parameter.py
@@ -460,10 +460,11 @@ class FitParameter(Parameter):
                 delta_high = numpy.absolute(self._high - self._prior)
 
                 # Calculate bins above and below, distributing evenly
-                bins_low = numpy.rint(
-                    (delta_low) / (delta_low + delta_high) * (self._bins + 1))
-                bins_high = numpy.rint(
-                    (delta_high) / (delta_low + delta_high) * (self._bins + 1))
+                bins_low = int(numpy.rint(
+                    (delta_low) / (delta_low + delta_high) * (self._bins + 1)))
+                bins_high = int(numpy.rint(
+                    (delta_high) / (delta_low + delta_high) *
+                    (self._bins + 1)))
 
                 # Calculate arrays of deviation, linear in logspace
                 deltas_low = numpy.linspace(
-- 
2.43.0


From 356f3f0031c20bc990a686063fda59f27e23a4db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:27:40 +0000
Subject: [PATCH 11/95] fix: get_value_index raises TypeError instead of its
 ValueError

---
 echidna/core/parameter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/echidna/core/parameter.py b/echidna/core/parameter.py
index 2d47048..e46ec60 100644
--- a/echidna/core/parameter.py
+++ b/echidna/core/parameter.py
@@ -514,7 +514,7 @@ class FitParameter(Parameter):
         """
         indices = numpy.where(self.get_values() == value)[0]
         if len(indices) == 0:
-            raise ValueError("No value %.2g found in parameter values " +
+            raise ValueError("No value %.2g found in parameter values "
                              "for parameter %s." % (value, self._name))
         return int(indices[0])
 
-- 
2.43.0


From 79dfdc8ff328852d91f79b82a2667da476b9c259 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:27:40 +0000
Subject: [PATCH 12/95] fix: SpectraParameter.round ignores the lower bound

Bin edges are at low + n*width, so for a lower bound that is not a multiple
of the width shrink moved the edges off the binning.
---
 echidna/core/parameter.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/echidna/core/parameter.py b/echidna/core/parameter.py
index e46ec60..6dd526a 100644
--- a/echidna/core/parameter.py
+++ b/echidna/core/parameter.py
@@ -1140,7 +1140,8 @@ class SpectraParameter(Parameter):
         Returns:
           float: The value of the closest bin edge to x
         """
-        return round(x/self.get_width())*self.get_width()
+        width = self.get_width()
+        return self._low + round((x - self._low) / width) * width
 
     def set_par(self, **kwargs):
         """Set a limit / binning parameter after initialisation.
-- 
2.43.0


From 2effb3efaaec84d692106383ec6e56ece01bff4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:28:12 +0000
Subject: [PATCH 13/95] fix: logscale_deviation can make more values than the
 parameter has bins

Rounding the two sides separately gives e.g. 7 values for 6 bins, so the fit
indexes outside its grid.
---
 echidna/core/parameter.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/echidna/core/parameter.py b/echidna/core/parameter.py
index 6dd526a..d33f77c 100644
--- a/echidna/core/parameter.py
+++ b/echidna/core/parameter.py
@@ -462,9 +462,7 @@ class FitParameter(Parameter):
                 # Calculate bins above and below, distributing evenly
                 bins_low = int(numpy.rint(
                     (delta_low) / (delta_low + delta_high) * (self._bins + 1)))
-                bins_high = int(numpy.rint(
-                    (delta_high) / (delta_low + delta_high) *
-                    (self._bins + 1)))
+                bins_high = self._bins + 1 - bins_low
 
                 # Calculate arrays of deviation, linear in logspace
                 deltas_low = numpy.linspace(
-- 
2.43.0


From a24d298bfeae34c86cad761d9ae6f6b3a63de59c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:28:12 +0000
Subject: [PATCH 14/95] fix: interrupted config dump leaves a file that loads
 as another config

A truncated YAML file is usually valid YAML with fewer parameters. Write to a
temporary file and rename it when complete.
---
 echidna/core/config.py      | 18 +++++++-----------
 echidna/util/yaml_loader.py | 22 ++++++++++++++++++++++
 2 files changed, 29 insertions(+), 11 deletions(-)

diff --git a/echidna/core/config.py b/echidna/core/config.py
index ea582ca..81a1f43 100644
--- a/echidna/core/config.py
+++ b/echidna/core/config.py
@@ -336,9 +336,8 @@ class GlobalFitConfig(Config):
             global_fname = self.get_name()
         if ".yml" not in global_fname:
             global_fname += ".yml"
-        with open(path+global_fname, "w") as stream:
-            yaml_loader.ordered_dump(
-                global_fit_config, stream=stream, indent=8)
+        yaml_loader.ordered_dump_to_file(
+            global_fit_config, path+global_fname, indent=8)
 
         if spectral_fname is None:
             spectral_fname = "spectral_fit_config"
@@ -346,9 +345,8 @@ class GlobalFitConfig(Config):
             spectral_fname = self.get_name()
         if ".yml" not in spectral_fname:
             spectral_fname += ".yml"
-        with open(path+spectral_fname, "w") as stream:
-            yaml_loader.ordered_dump(
-                spectral_fit_config, stream=stream, indent=8)
+        yaml_loader.ordered_dump_to_file(
+            spectral_fit_config, path+spectral_fname, indent=8)
 
     def get_par(self, name):
         """ Get requested parameter:
@@ -580,9 +578,8 @@ class SpectraFitConfig(Config):
             spectral_fname = self.get_name()
         if ".yml" not in spectral_fname:
             spectral_fname += ".yml"
-        with open(path+spectral_fname, "w") as stream:
-            yaml_loader.ordered_dump(
-                spectral_fit_config, stream=stream, indent=8)
+        yaml_loader.ordered_dump_to_file(
+            spectral_fit_config, path+spectral_fname, indent=8)
 
     @classmethod
     def load(cls, config, spectra_name, name="spectral_fit_config"):
@@ -712,8 +709,7 @@ class SpectraConfig(Config):
             filename = self.get_name()
         if ".yml" not in filename:
             filename += ".yml"
-        with open(path+filename, "w") as stream:
-            yaml_loader.ordered_dump(config, stream=stream, indent=8)
+        yaml_loader.ordered_dump_to_file(config, path+filename, indent=8)
 
     @classmethod
     def load(cls, config, name="config"):
diff --git a/echidna/util/yaml_loader.py b/echidna/util/yaml_loader.py
index 42ca6b7..a08023a 100644
--- a/echidna/util/yaml_loader.py
+++ b/echidna/util/yaml_loader.py
@@ -1,3 +1,4 @@
+import os
 import yaml
 from collections import OrderedDict
 
@@ -47,3 +48,24 @@ def ordered_dump(data, stream=None, **kwargs):
     OrderedDumper.add_representer(OrderedDict, _dict_representer)
 
     yaml.dump(data, stream, OrderedDumper, **kwargs)
+
+
+def ordered_dump_to_file(data, filename, **kwargs):
+    """ Dumps a .yml file, retaining the ordering of the dict
+    structure. The file is only replaced once it has been completely
+    written, because a truncated .yml file can still be a valid one.
+
+    Args:
+      data (dict): Data dictionary to be saved to .yml file
+      filename (string): Path of the .yml file.
+      kwargs (float): Key word arguments to be passed to yaml.dump
+    """
+    temp_name = "%s.%d.tmp" % (filename, os.getpid())
+    try:
+        with open(temp_name, "w") as stream:
+            ordered_dump(data, stream=stream, **kwargs)
+        os.rename(temp_name, filename)
+    except:
+        if os.path.exists(temp_name):
+            os.remove(temp_name)
+        raise
-- 
2.43.0


From e58f3ebcef8c5e831fcb91d03f18fd4b10d5ed06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:28:12 +0000
Subject: [PATCH 15/95] fix: shrink slices with a float bin number

---
 echidna/core/spectra.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/echidna/core/spectra.py b/echidna/core/spectra.py
index 258c0e1..6edfd9b 100644
--- a/echidna/core/spectra.py
+++ b/echidna/core/spectra.py
@@ -487,8 +487,8 @@ class Spectra(object):
             # Round down the low bin
             low_bin = int((kwargs[kw_low] - par._low) / par.get_width())
             # Round up the high bin
-            high_bin = numpy.ceil((kwargs[kw_high] - par._low) /
-                                  par.get_width())
+            high_bin = int(numpy.ceil((kwargs[kw_high] - par._low) /
+                                      par.get_width()))
             # new_low is the new lower first bin edge
             new_low = par.round(par._low + low_bin * par.get_width())
             # new_high is the new upper last bin edge
-- 
2.43.0


From ce50281f093cf4728977043caf110973e05bce92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:28:12 +0000
Subject: [PATCH 16/95] fix: refused rebin leaves the config with bins the data
 does not have

---
 echidna/core/spectra.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/echidna/core/spectra.py b/echidna/core/spectra.py
index 6edfd9b..360fb63 100644
--- a/echidna/core/spectra.py
+++ b/echidna/core/spectra.py
@@ -359,13 +359,15 @@ class Spectra(object):
         if len(new_bins) != len(self._config.get_pars()):
             raise ValueError('Incorrect number of dimensions; need %s'
                              % len(self._config.get_pars()))
-        # Now do the rebinning
+        # Check all the new bins before changing any of them
         for i, v in enumerate(self._config.get_pars()):
             if self._config.get_par(v)._bins % new_bins[i] != 0:
                 raise ValueError("Old bins/New bins must be integer old: %s"
                                  " new: %s for parameter %s"
                                  % (self._config.get_par(v)._bins,
                                     new_bins[i], v))
+        # Now do the rebinning
+        for i, v in enumerate(self._config.get_pars()):
             self._config.get_par(v)._bins = new_bins[i]
 
         compression_pairs = [(d, c//d) for d, c in zip(new_bins,
-- 
2.43.0


From 87ebda8f8727a3465376310243cbb464b829c5c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:28:12 +0000
Subject: [PATCH 17/95] fix: nd_project and surface sum over the wrong axes

Each sum moves the axes that follow it, so summing over more than one axis
projected onto the wrong dimension or ran out of axes.
---
 echidna/core/spectra.py | 16 ++++++----------
 1 file changed, 6 insertions(+), 10 deletions(-)

diff --git a/echidna/core/spectra.py b/echidna/core/spectra.py
index 360fb63..b8e0889 100644
--- a/echidna/core/spectra.py
+++ b/echidna/core/spectra.py
@@ -313,11 +313,9 @@ class Spectra(object):
             axes.append(self._config.get_index(dim))
         if len(axes) == len(self._config.get_pars()):
             return copy.copy(self._data)
-        projection = copy.copy(self._data)
-        for i_axis in range(len(self._config.get_pars())):
-            if i_axis not in axes:
-                projection = projection.sum(i_axis)
-        return projection
+        return self._data.sum(tuple(
+            i_axis for i_axis in range(len(self._config.get_pars()))
+            if i_axis not in axes))
 
     def project(self, dimension):
         """ Project the histogram along an axis for a given dimension.
@@ -594,8 +592,6 @@ class Spectra(object):
             raise IndexError("Axis index %s out of range" % axis1)
         if axis2 < 0 or axis2 > len(self._config.get_pars()):
             raise IndexError("Axis index %s out of range" % axis2)
-        projection = copy.copy(self._data)
-        for i_axis in range(len(self._config.get_pars())):
-            if i_axis != axis1 and i_axis != axis2:
-                projection = projection.sum(i_axis)
-        return projection
+        return self._data.sum(tuple(
+            i_axis for i_axis in range(len(self._config.get_pars()))
+            if i_axis != axis1 and i_axis != axis2))
-- 
2.43.0


From 63934e6f0a86fd47052cd9d50a14370b15c06b88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:29:24 +0000
Subject: [PATCH 18/95] fix: convolved spectra share the config of the original

Shrinking or rebinning the result changed the bounds and bins recorded for the
original spectrum (and, in a fit, for every other point of the grid).
---
 echidna/core/config.py | 14 ++++++++++++++
 echidna/core/scale.py  |  1 +
 echidna/core/shift.py  |  2 ++
 echidna/core/smear.py  |  6 ++++++
 4 files changed, 23 insertions(+)

diff --git a/echidna/core/config.py b/echidna/core/config.py
index 81a1f43..151b158 100644
--- a/echidna/core/config.py
+++ b/echidna/core/config.py
@@ -7,6 +7,7 @@ from echidna.core.parameter import (RateParameter, ScaleParameter,
                                     SpectraParameter)
 import echidna.util.yaml_loader as yaml_loader
 
+import copy
 import logging
 import abc
 from collections import OrderedDict
@@ -670,6 +671,19 @@ class SpectraConfig(Config):
         super(SpectraConfig, self).__init__(config_name, parameters)
         self._type = "spectra"
 
+    def copy(self):
+        """ Copy the config, including its parameters.
+
+        Returns:
+          (:class:`SpectraConfig`): Config whose bounds and bins can be
+            changed independently of the original.
+        """
+        config = copy.copy(self)
+        config._parameters = OrderedDict()
+        for name in self.get_pars():
+            config._parameters[name] = copy.copy(self.get_par(name))
+        return config
+
     def dump(self):
         """ Dumps the spectra config to a config dictionary, containing
         all spectra parameters. The dictionary has the form specified
diff --git a/echidna/core/scale.py b/echidna/core/scale.py
index c0dba9a..47a6d4d 100644
--- a/echidna/core/scale.py
+++ b/echidna/core/scale.py
@@ -52,6 +52,7 @@ class Scale(object):
         interpolation = spectrum.interpolate1d(dimension, **kwargs)
         sf = self.get_scale_factor()
         scaled_spec = copy.copy(spectrum)
+        scaled_spec._config = spectrum._config.copy()
         scaled_spec._name = spectrum._name + "_sf" + str(sf)
         scaled_spec._data = numpy.zeros(spectrum._data.shape)
         n_dim = len(spectrum._data.shape)
diff --git a/echidna/core/shift.py b/echidna/core/shift.py
index 4aceee4..146691e 100644
--- a/echidna/core/shift.py
+++ b/echidna/core/shift.py
@@ -50,6 +50,7 @@ class Shift(object):
         preshift_sum = spectrum.sum()
         interpolation = spectrum.interpolate1d(dimension, **kwargs)
         shifted_spec = copy.copy(spectrum)
+        shifted_spec._config = spectrum._config.copy()
         shifted_spec._name = spectrum._name + "_shift" + str(shift)
         shifted_spec._data = numpy.zeros(spectrum._data.shape)
         n_dim = len(spectrum._data.shape)
@@ -185,6 +186,7 @@ class Shift(object):
             raise ValueError("Shift (%s) must be a multiple of bin width (%s)"
                              % (shift, step))
         shifted_spec = copy.copy(spectrum)
+        shifted_spec._config = spectrum._config.copy()
         shifted_spec._name = spectrum._name + "_shift" + str(shift)
         shifted_spec._data = numpy.zeros(spectrum._data.shape)
         n_dim = len(spectrum._data.shape)
diff --git a/echidna/core/smear.py b/echidna/core/smear.py
index a8bcdb7..30010ef 100644
--- a/echidna/core/smear.py
+++ b/echidna/core/smear.py
@@ -238,6 +238,7 @@ class EnergySmearLY(Smear):
             widths.append(spectrum.get_config().get_par(par_name).get_width())
             par_names.append(par_name)
         smeared_spec = copy.copy(spectrum)
+        smeared_spec._config = spectrum._config.copy()
         smeared_spec._name = spectrum._name + "_ly" + str(self._light_yield)
         smeared_spec._data = numpy.zeros(spectrum._data.shape)
         for bin in itertools.product(*bins):
@@ -315,6 +316,7 @@ class EnergySmearLY(Smear):
             widths.append(spectrum.get_config().get_par(par_name).get_width())
             par_names.append(par_name)
         smeared_spec = copy.copy(spectrum)
+        smeared_spec._config = spectrum._config.copy()
         smeared_spec._name = spectrum._name + "_ly" + str(self._light_yield)
         smeared_spec._data = numpy.zeros(spectrum._data.shape)
         for bin in itertools.product(*bins):
@@ -485,6 +487,7 @@ class EnergySmearRes(Smear):
             widths.append(spectrum.get_config().get_par(par_name).get_width())
             par_names.append(par_name)
         smeared_spec = copy.copy(spectrum)
+        smeared_spec._config = spectrum._config.copy()
         smeared_spec._name = (spectrum._name + "_" +
                               str(100. * self._resolution) + "%")
         smeared_spec._data = numpy.zeros(spectrum._data.shape)
@@ -563,6 +566,7 @@ class EnergySmearRes(Smear):
             widths.append(spectrum.get_config().get_par(par_name).get_width())
             par_names.append(par_name)
         smeared_spec = copy.copy(spectrum)
+        smeared_spec._config = spectrum._config.copy()
         smeared_spec._name = (spectrum._name + "_" +
                               str(100. * self._resolution) + "%")
         smeared_spec._data = numpy.zeros(spectrum._data.shape)
@@ -703,6 +707,7 @@ class RadialSmear(Smear):
             widths.append(spectrum.get_config().get_par(par_name).get_width())
             par_names.append(par_name)
         smeared_spec = copy.copy(spectrum)
+        smeared_spec._config = spectrum._config.copy()
         smeared_spec._name = (spectrum._name + "_" +
                               str(100. * self._resolution) + "mm")
         smeared_spec._data = numpy.zeros(spectrum._data.shape)
@@ -777,6 +782,7 @@ class RadialSmear(Smear):
             widths.append(spectrum.get_config().get_par(par_name).get_width())
             par_names.append(par_name)
         smeared_spec = copy.copy(spectrum)
+        smeared_spec._config = spectrum._config.copy()
         smeared_spec._name = (spectrum._name + "_" +
                               str(100. * self._resolution) + "mm")
         smeared_spec._data = numpy.zeros(spectrum._data.shape)
-- 
2.43.0


From 0ac4305564ce52946812e318971be0348c900efd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:29:24 +0000
Subject: [PATCH 19/95] fix: making a fixed background changes the caller's
 spectra

A shallow copy shares the config, so shrinking the copy to the ROI left the
original with bounds its data does not have.
---
 echidna/fit/fit.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/echidna/fit/fit.py b/echidna/fit/fit.py
index 9809817..0f0b075 100644
--- a/echidna/fit/fit.py
+++ b/echidna/fit/fit.py
@@ -162,6 +162,7 @@ class Fit(object):
         for spectrum, scaling in spectra_dict.iteritems():
             # Copy so original spectra is unchanged
             spectrum = copy.copy(spectrum)
+            spectrum._config = spectrum._config.copy()
             if shrink:
                 self.shrink_spectra(spectrum)
             spectrum.scale(scaling)
@@ -642,6 +643,7 @@ class Fit(object):
             self._logger.debug("Adding Spectra with name %s to"
                                "_fixed_background" % spectrum.get_name())
             spectrum = copy.copy(spectrum)
+            spectrum._config = spectrum._config.copy()
             if first:
                 first = False
                 if shrink:
-- 
2.43.0


From 2c0d41df4d85f808f0a960b3c360a823a5578d94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:29:24 +0000
Subject: [PATCH 20/95] fix: RadialSmear.random_smear loops over a float range

---
 echidna/core/smear.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/echidna/core/smear.py b/echidna/core/smear.py
index 30010ef..b5b1176 100644
--- a/echidna/core/smear.py
+++ b/echidna/core/smear.py
@@ -787,7 +787,7 @@ class RadialSmear(Smear):
                               str(100. * self._resolution) + "mm")
         smeared_spec._data = numpy.zeros(spectrum._data.shape)
         for bin in itertools.product(*bins):
-            entries = spectrum._data[bin]
+            entries = int(spectrum._data[bin])
             if entries:
                 data = {}
                 for i in range(len(bin)):
-- 
2.43.0


From 93d144a77ceec606556bb741cfa3bc1fc2f51c98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:29:24 +0000
Subject: [PATCH 21/95] fix: GridSearch without a name loses its default name

---
 echidna/fit/minimise.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/echidna/fit/minimise.py b/echidna/fit/minimise.py
index 36307ec..b032489 100644
--- a/echidna/fit/minimise.py
+++ b/echidna/fit/minimise.py
@@ -90,7 +90,7 @@ class GridSearch(FitResults, Minimiser):
     def __init__(self, fit_config, spectra_config,
                  name=None, per_bin=False, use_numpy=True):
         super(GridSearch, self).__init__(fit_config, spectra_config, name=name)
-        Minimiser.__init__(self, name, GridSearch, per_bin)
+        Minimiser.__init__(self, self._name, GridSearch, per_bin)
         if per_bin:
             stats_shape = fit_config.get_shape() + spectra_config.get_shape()
         else:
-- 
2.43.0


From 76d23304d34da9261bb00d485d46f83538611be1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:29:24 +0000
Subject: [PATCH 22/95] fix: grid search indexes its grids with floats

---
 echidna/fit/minimise.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/echidna/fit/minimise.py b/echidna/fit/minimise.py
index b032489..d43b408 100644
--- a/echidna/fit/minimise.py
+++ b/echidna/fit/minimise.py
@@ -668,7 +668,7 @@ class GridSearch(FitResults, Minimiser):
         """
         index = 0
         values = numpy.zeros((len(self._fit_config.get_pars())))
-        indices = numpy.zeros((len(self._fit_config.get_pars())))
+        indices = numpy.zeros((len(self._fit_config.get_pars())), dtype=int)
         for values, indices in self._get_values(index, values, indices):
             yield values, indices
 
-- 
2.43.0


From 20d1aa17e633d06e34c9a5c539b28f3bdf6088a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:29:24 +0000
Subject: [PATCH 23/95] fix: per-bin result of the wrong shape is broadcast
 into the grid

The check was unreachable.
---
 echidna/fit/minimise.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/echidna/fit/minimise.py b/echidna/fit/minimise.py
index d43b408..185a7d4 100644
--- a/echidna/fit/minimise.py
+++ b/echidna/fit/minimise.py
@@ -328,12 +328,12 @@ class GridSearch(FitResults, Minimiser):
                     raise TypeError("Expecting result of type numpy.ndarray "
                                     "(not %s), for per_bin enabled" %
                                     type(result))
-                    expected_shape = self._spectra_config.get_shape()
-                    if result.shape != expected_shape:
-                        raise ValueError(
-                            "Expecting result to be numpy array with shape "
-                            "%s (not %s), for per_bin enabled" %
-                            (str(expected_shape), str(result.shape)))
+                expected_shape = self._spectra_config.get_shape()
+                if result.shape != expected_shape:
+                    raise ValueError(
+                        "Expecting result to be numpy array with shape "
+                        "%s (not %s), for per_bin enabled" %
+                        (str(expected_shape), str(result.shape)))
             else:
                 result = numpy.array(result)
             self.set_stat(result, tuple(indices))
-- 
2.43.0


From 4f26e31be58297f66fda3f3b9a912ae7266201c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:29:24 +0000
Subject: [PATCH 24/95] fix: reset_grids gives a per-bin grid to a search that
 is not per-bin

---
 echidna/fit/minimise.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/echidna/fit/minimise.py b/echidna/fit/minimise.py
index 185a7d4..6d9455d 100644
--- a/echidna/fit/minimise.py
+++ b/echidna/fit/minimise.py
@@ -472,8 +472,11 @@ class GridSearch(FitResults, Minimiser):
                 new_name += "_" + part
             self._resets += 1
             self._name = new_name + "_" + str(self._resets)
-        stats_shape = (self._fit_config.get_shape() +
-                       self._spectra_config.get_shape())
+        if self._per_bin:
+            stats_shape = (self._fit_config.get_shape() +
+                           self._spectra_config.get_shape())
+        else:
+            stats_shape = self._fit_config.get_shape()
         self._stats = numpy.zeros(stats_shape)
         self._penalty_terms = numpy.zeros(self._fit_config.get_shape())
 
-- 
2.43.0


From 32d30bf0302bd376f4fdba8909120239c01914f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:29:24 +0000
Subject: [PATCH 25/95] fix: get_raw_stats looks up the bin on the parameter's
 name

---
 echidna/fit/minimise.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/echidna/fit/minimise.py b/echidna/fit/minimise.py
index 6d9455d..38dc42e 100644
--- a/echidna/fit/minimise.py
+++ b/echidna/fit/minimise.py
@@ -193,7 +193,7 @@ class GridSearch(FitResults, Minimiser):
             cmd = "stats["
             for par in self._fit_config.get_pars():
                 if par in kwargs:
-                    idx = par.get_bin(kwargs[par])
+                    idx = self._fit_config.get_par(par).get_bin(kwargs[par])
                     cmd += str(idx)+","
                 else:
                     cmd += ":,"
-- 
2.43.0


From aeaa07ebb6634d4da252df162d8af4e6832e485e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:30:57 +0000
Subject: [PATCH 26/95] fix: only the last global parameter is applied to the
 signal

---
 echidna/fit/fit.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/echidna/fit/fit.py b/echidna/fit/fit.py
index 0f0b075..dd0ffe2 100644
--- a/echidna/fit/fit.py
+++ b/echidna/fit/fit.py
@@ -540,8 +540,9 @@ class Fit(object):
                         signal = self.load_pre_made(self._signal,
                                                     global_pars)
                     else:
+                        signal = self._signal
                         for parameter in global_pars:
-                            signal = parameter.apply_to(self._signal)
+                            signal = parameter.apply_to(signal)
                     signal._fit_config = fit_config
                     self._global_dict[background_name][cur_val] = signal
                 else:
-- 
2.43.0


From f113a066d13f56b01aab75fddba4de69baebcb71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:30:57 +0000
Subject: [PATCH 27/95] fix: check_roi reports the previous ROI, which may not
 exist

---
 echidna/fit/fit.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/echidna/fit/fit.py b/echidna/fit/fit.py
index dd0ffe2..6ebe266 100644
--- a/echidna/fit/fit.py
+++ b/echidna/fit/fit.py
@@ -308,7 +308,7 @@ class Fit(object):
             if len(roi[dim]) != 2:
                 raise CompatibilityError("%s entry (%s) in roi must contain a"
                                          " low and high value in a tuple or"
-                                         " list" % (dim, self._roi[dim]))
+                                         " list" % (dim, roi[dim]))
             if roi[dim][0] > roi[dim][1]:  # Make sure low is first
                 roi[dim] = roi[dim][::-1]  # Reverses list/tuple
 
-- 
2.43.0


From 095df4bf9111c07ce31faa4288df1b63b09afb02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:30:57 +0000
Subject: [PATCH 28/95] fix: set_pre_made_dir sets an attribute that nothing
 reads

---
 echidna/fit/fit.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/echidna/fit/fit.py b/echidna/fit/fit.py
index 6ebe266..911febb 100644
--- a/echidna/fit/fit.py
+++ b/echidna/fit/fit.py
@@ -836,7 +836,8 @@ class Fit(object):
         if not os.path.isdir(directory):
             raise ValueError("Supplied directory %s is not a valid path."
                              % directory)
-        self._pre_made_dir = directory
+        self._pre_made_base_dir = directory
+        self._global_dict = {}  # Loaded from the previous directory
 
     def shrink_all(self):
         """ Shrinks all the spectra used in the fit to the roi.
-- 
2.43.0


From cf69cb4ab791a5a4a721ea2990a8e1855352d0f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:30:57 +0000
Subject: [PATCH 29/95] fix: wrong directory for pre-made spectra

A base directory without a trailing slash ran into the name of the dimension, a
spectrum loaded from the current directory was looked up in /, and a directory
whose name contains that of the dimension was taken for it.
---
 echidna/fit/fit.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/echidna/fit/fit.py b/echidna/fit/fit.py
index 911febb..cd972ee 100644
--- a/echidna/fit/fit.py
+++ b/echidna/fit/fit.py
@@ -603,15 +603,15 @@ class Fit(object):
         # Start with base spectrum name
         filename = os.path.basename(spectrum._location)
         if self._pre_made_base_dir:
-            directory = self._pre_made_base_dir
+            directory = os.path.join(self._pre_made_base_dir, '')
         else:
-            directory = os.path.dirname(spectrum._location) + '/'
+            directory = os.path.join(os.path.dirname(spectrum._location), '')
 
         # Add current value of each global parameter
         for par in global_pars:
             dim = par._dimension
             added_dim = False
-            if dim not in directory:
+            if dim not in directory.split('/'):
                 added_dim = True
                 directory += dim + '/'
             directory, filename = par.get_pre_convolved(directory, filename,
-- 
2.43.0


From e9ef3238d69bd737d6155086048d2df9742b7116 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:31:39 +0000
Subject: [PATCH 30/95] fix: fit uses convolved spectra of replaced backgrounds
 and signals

The cache is keyed by background name, so after replacing a floating background
or the signal by one of the same name the fit kept using the old spectrum.
---
 echidna/fit/fit.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/echidna/fit/fit.py b/echidna/fit/fit.py
index cd972ee..028efb2 100644
--- a/echidna/fit/fit.py
+++ b/echidna/fit/fit.py
@@ -81,6 +81,7 @@ class Fit(object):
                  use_pre_made=False, pre_made_base_dir=None, single_bin=False):
         self._logger = logging.getLogger("Fit")
         self._checked = False
+        self._global_dict = {}
         self.set_roi(roi)
 
         self.set_test_statistic(test_statistic)
@@ -116,8 +117,6 @@ class Fit(object):
                                  "fixed background or at least one floating "
                                  "is required to run the fit.")
 
-        self._global_dict = {}
-
         # Now all floating backgrounds are loaded, check fit par values
         for par in self.get_fit_config().get_spectra_pars():
             par.check_values()  # raises an error if prior is not in values
@@ -739,6 +738,8 @@ class Fit(object):
             else:
                 self.check_spectra(background)
             floating_pars.append(self.get_roi_pars(background))
+        # Forget convolved spectra of any previous backgrounds
+        self._global_dict = {}
         self._floating_backgrounds = floating_backgrounds
         self._floating_pars = floating_pars
 
@@ -820,6 +821,9 @@ class Fit(object):
         if shrink:
             self.shrink_spectra(signal)
         self._signal = signal
+        if self._floating_backgrounds and self._fit_config.get_global_pars():
+            # Forget convolved spectra of any previous signal
+            self._global_dict.pop(signal.get_background_name(), None)
         self._logger.debug("Set _signal as Spectra with name %s" %
                            signal.get_name())
         self._signal_pars = self.get_roi_pars(signal)
-- 
2.43.0


From 3678ef602f6fb040565d0180ee39f6ea0e1ad840 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:31:39 +0000
Subject: [PATCH 31/95] fix: get_limit fails on a parameter without a penalty
 term

sigma=None is supported, but the summary formats it as a number.
---
 echidna/limit/limit.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/echidna/limit/limit.py b/echidna/limit/limit.py
index aa33dcc..3b06048 100644
--- a/echidna/limit/limit.py
+++ b/echidna/limit/limit.py
@@ -202,7 +202,7 @@ class Limit(object):
                                                               parameter))
                 log_text += ("Prior: %.4g\n" %
                              cur_par.get_prior())
-                log_text += ("Sigma: %.4g\n" %
+                log_text += ("Sigma: %s\n" %
                              cur_par.get_sigma())
                 log_text += ("Penalty term: %.4g\n" %
                              self._limit_results.get_penalty_term(i_limit,
@@ -263,7 +263,7 @@ class Limit(object):
                              self._limit_results.get_best_fit(i_limit,
                                                               parameter))
                 log_text += ("Prior: %.4g\n" % cur_par.get_prior())
-                log_text += ("Sigma: %.4g\n" % cur_par.get_sigma())
+                log_text += ("Sigma: %s\n" % cur_par.get_sigma())
                 log_text += ("Penalty term: %.4g\n" %
                              self._limit_results.get_penalty_term(i_limit,
                                                                   parameter))
-- 
2.43.0


From 89fc043339d647ecb1ecb70d7b19490275d41599 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:31:39 +0000
Subject: [PATCH 32/95] fix: get_limit ignores min_stat=0 and rejects an array

---
 echidna/limit/limit.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/echidna/limit/limit.py b/echidna/limit/limit.py
index 3b06048..77692f4 100644
--- a/echidna/limit/limit.py
+++ b/echidna/limit/limit.py
@@ -120,7 +120,7 @@ class Limit(object):
         """
         par = self._signal.get_fit_config().get_par("rate")
 
-        if min_stat:  # If supplied specific stat_zero use this
+        if min_stat is not None:  # If supplied specific stat_zero use this
             self._logger.warning("Overriding min_stat with supplied value")
             logging.getLogger("extra").warning(" --> %s" % min_stat)
         else:  # check zero signal stat in case its not in self._stats
-- 
2.43.0


From 8f7de53cf4cdb60284142a32fefa88c6b2065bf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:31:39 +0000
Subject: [PATCH 33/95] fix: minimum bin of per-bin limit is not the index of a
 signal scale

---
 echidna/limit/limit.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/echidna/limit/limit.py b/echidna/limit/limit.py
index 77692f4..ab8e55d 100644
--- a/echidna/limit/limit.py
+++ b/echidna/limit/limit.py
@@ -182,7 +182,7 @@ class Limit(object):
         stats -= min_stat
 
         # Also want to know index of minimum
-        min_bin = numpy.argmin(stats)
+        min_bin = numpy.argmin(stats.reshape(len(stats), -1).sum(axis=1))
 
         self._limit_results._stats = stats
         stats = self._limit_results.get_full_stats()
-- 
2.43.0


From ed0a0c332b6889d26ba557be6c16014b57616afb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:31:39 +0000
Subject: [PATCH 34/95] fix: LimitError reports a signal scale as the limit

---
 echidna/limit/limit.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/echidna/limit/limit.py b/echidna/limit/limit.py
index ab8e55d..d8febb0 100644
--- a/echidna/limit/limit.py
+++ b/echidna/limit/limit.py
@@ -253,9 +253,9 @@ class Limit(object):
             # Slice from min_bin upwards
             log_text = ""
             i_limit = numpy.argmax(stats[min_bin:])
-            limit = par.get_values()[min_bin + i_limit]
+            max_scale = par.get_values()[min_bin + i_limit]
             log_text += "\n===== Limit Summary =====\nNo limit found:\n"
-            log_text += "Signal Decays (at max stat): %.4g\n" % limit
+            log_text += "Signal Decays (at max stat): %.4g\n" % max_scale
             for parameter in self._fitter.get_fit_config().get_pars():
                 cur_par = self._fitter.get_fit_config().get_par(parameter)
                 log_text += "--- systematic: %s ---\n" % parameter
-- 
2.43.0


From 667bde1ebb4cd67f000e93e41d7e266b0c7eef5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:31:39 +0000
Subject: [PATCH 35/95] fix: limit_fname is ignored if no limit is found

---
 echidna/limit/limit.py | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/echidna/limit/limit.py b/echidna/limit/limit.py
index d8febb0..caf1ec8 100644
--- a/echidna/limit/limit.py
+++ b/echidna/limit/limit.py
@@ -273,15 +273,20 @@ class Limit(object):
             logging.getLogger("extra").info("\n%s" % log_text)
 
             if store_limit:
-                timestamp = datetime.datetime.now().strftime(
-                    "%Y-%m-%d_%H-%M-%S")
-                path = output.__default_save_path__ + "/"
-                fname = (self._limit_results.get_name() + "_" + timestamp +
-                         ".hdf5")
-                store.dump_limit_results(path + fname, self._limit_results)
+                if limit_fname:
+                    if limit_fname[-5:] != '.hdf5':
+                        limit_fname += '.hdf5'
+                else:
+                    timestamp = datetime.datetime.now().strftime(
+                        "%Y-%m-%d_%H-%M-%S")
+                    path = output.__default_save_path__ + "/"
+                    fname = (self._limit_results.get_name() + "_" + timestamp +
+                             ".hdf5")
+                    limit_fname = path + fname
+                store.dump_limit_results(limit_fname, self._limit_results)
                 self._logger.info("Saved summary of %s to file %s" %
                                   (self._limit_results.get_name(),
-                                   path + fname))
+                                   limit_fname))
             if store_spectra:
                 store.dump(path + fname, self._fitter.get_data(),
                            append=True, group_name="data")
-- 
2.43.0


From b169e8050792ddbfdeefc3400b06a645a3467c27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:31:39 +0000
Subject: [PATCH 36/95] fix: limits set in the same second overwrite each
 other's results

The default filename only has the time in seconds (and the clock can go back).
---
 echidna/limit/limit.py | 38 ++++++++++++++++++++++++++------------
 1 file changed, 26 insertions(+), 12 deletions(-)

diff --git a/echidna/limit/limit.py b/echidna/limit/limit.py
index caf1ec8..1f8e436 100644
--- a/echidna/limit/limit.py
+++ b/echidna/limit/limit.py
@@ -9,6 +9,8 @@ from echidna.output import store
 
 import logging
 import collections
+import errno
+import os
 import yaml
 import datetime
 import json
@@ -54,6 +56,28 @@ class Limit(object):
         logging.getLogger("extra").info(
             yaml.dump(fitter_config.dump(basic=True)))
 
+    def _get_default_fname(self):
+        """ Reserve the default file to save the limit results to.
+
+        Returns:
+          string: Path of a new file, named after the limit results and
+            the current time, that no other limit will be saved to.
+        """
+        timestamp = datetime.datetime.now().strftime("%Y-%m-%d_%H-%M-%S")
+        base = (output.__default_save_path__ + "/" +
+                self._limit_results.get_name() + "_" + timestamp)
+        fname = base + ".hdf5"
+        copies = 0
+        while True:
+            try:
+                os.close(os.open(fname, os.O_CREAT | os.O_EXCL | os.O_WRONLY))
+                return fname
+            except OSError as detail:
+                if detail.errno != errno.EEXIST:
+                    raise
+            copies += 1
+            fname = "%s_%d.hdf5" % (base, copies)
+
     def get_array_limit(self, array, limit=2.71):
         """ Get the limit from an array containing statisics
 
@@ -217,12 +241,7 @@ class Limit(object):
                     if limit_fname[-5:] != '.hdf5':
                         limit_fname += '.hdf5'
                 else:
-                    timestamp = datetime.datetime.now().strftime(
-                        "%Y-%m-%d_%H-%M-%S")
-                    path = output.__default_save_path__ + "/"
-                    fname = (self._limit_results.get_name() + "_" + timestamp +
-                             ".hdf5")
-                    limit_fname = path + fname
+                    limit_fname = self._get_default_fname()
                 store.dump_limit_results(limit_fname, self._limit_results)
                 self._logger.info("Saved summary of %s to file %s" %
                                   (self._limit_results.get_name(),
@@ -277,12 +296,7 @@ class Limit(object):
                     if limit_fname[-5:] != '.hdf5':
                         limit_fname += '.hdf5'
                 else:
-                    timestamp = datetime.datetime.now().strftime(
-                        "%Y-%m-%d_%H-%M-%S")
-                    path = output.__default_save_path__ + "/"
-                    fname = (self._limit_results.get_name() + "_" + timestamp +
-                             ".hdf5")
-                    limit_fname = path + fname
+                    limit_fname = self._get_default_fname()
                 store.dump_limit_results(limit_fname, self._limit_results)
                 self._logger.info("Saved summary of %s to file %s" %
                                   (self._limit_results.get_name(),
-- 
2.43.0


From aa78ea7dd7fb106dd297d2a8bbd57f2a9fca4d10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:33:35 +0000
Subject: [PATCH 37/95] fix: get_limit cannot store spectra

store.dump has no group_name argument, and the no-limit branch uses the
undefined path.
---
 echidna/limit/limit.py  | 51 +++++++++++++++++------------------------
 echidna/output/store.py | 12 ++++++----
 2 files changed, 29 insertions(+), 34 deletions(-)

diff --git a/echidna/limit/limit.py b/echidna/limit/limit.py
index 1f8e436..6fe9a63 100644
--- a/echidna/limit/limit.py
+++ b/echidna/limit/limit.py
@@ -247,24 +247,7 @@ class Limit(object):
                                   (self._limit_results.get_name(),
                                    limit_fname))
             if store_spectra:
-                path = output.__default_save_path__ + "/"
-                fname = self._fitter.get_data()._name + "_data.hdf5"
-                store.dump(path + fname, self._fitter.get_data(),
-                           append=True, group_name="data")
-                if self._fitter.get_fixed_background():
-                    fname = (self._fitter.get_fixed_background()._name +
-                             "_fixed.hdf5")
-                    store.dump(path + fname,
-                               self._fitter.get_fixed_background(),
-                               append=True, group_name="fixed")
-                if self._fitter.get_floating_backgrounds():
-                    for background in self._fitter.get_floating_backgrounds():
-                        fname = background._name + "_float.hdf5"
-                        store.dump(path + fname, background, append=True,
-                                   group_name=background.get_name())
-                fname = self._signal._name + "_signal.hdf5"
-                store.dump(path + fname, self._signal, append=True,
-                           group_name="signal")
+                self._store_spectra()
 
             return limit
 
@@ -302,22 +285,30 @@ class Limit(object):
                                   (self._limit_results.get_name(),
                                    limit_fname))
             if store_spectra:
-                store.dump(path + fname, self._fitter.get_data(),
-                           append=True, group_name="data")
-                if self._fitter.get_fixed_background():
-                    store.dump(path + fname,
-                               self._fitter.get_fixed_background(),
-                               append=True, group_name="fixed")
-                if self._fitter.get_floating_backgrounds():
-                    for background in self._fitter.get_floating_backgrounds():
-                        store.dump(path + fname, background, append=True,
-                                   group_name=background.get_name())
-                store.dump(path + fname, self._signal, append=True,
-                           group_name="signal")
+                self._store_spectra()
             self._logger.error("Recieived: IndexError: %s" % detail)
             raise LimitError("Unable to find limit. Max stat: %s, Limit: %s"
                              % (stats.max(), limit))
 
+    def _store_spectra(self):
+        """ Save the spectra used for fitting, each to the file and group
+        named after its role. Spectra saved there earlier are replaced.
+        """
+        path = output.__default_save_path__ + "/"
+        data = self._fitter.get_data()
+        store.dump(path + data._name + "_data.hdf5", data,
+                   append=True, overwrite=True, group_name="data")
+        fixed = self._fitter.get_fixed_background()
+        if fixed:
+            store.dump(path + fixed._name + "_fixed.hdf5", fixed,
+                       append=True, overwrite=True, group_name="fixed")
+        for background in self._fitter.get_floating_backgrounds() or []:
+            store.dump(path + background._name + "_float.hdf5", background,
+                       append=True, overwrite=True,
+                       group_name=background.get_name())
+        store.dump(path + self._signal._name + "_signal.hdf5", self._signal,
+                   append=True, overwrite=True, group_name="signal")
+
     def get_statistics(self):
         """ Get the test statistics for all signal scalings.
 
diff --git a/echidna/output/store.py b/echidna/output/store.py
index e77aace..629f28e 100644
--- a/echidna/output/store.py
+++ b/echidna/output/store.py
@@ -78,14 +78,18 @@ def string_to_dict(in_string):
     return out_dict
 
 
-def dump(file_path, spectrum, append=False, overwrite=False):
+def dump(file_path, spectrum, append=False, overwrite=False,
+         group_name="spectrum"):
     """ Dump the spectrum to the file_path.
 
     Args:
       file_path (string): Location to save to.
       spectrum (:class:`spectra.Spectra`): The spectrum to save
+      append (bool, optional): Append to existing hdf5 file.
+      overwrite (bool, optional): Replace the spectrum already saved to
+        the group, when appending.
+      group_name (string, optional): Name of the group to save to.
     """
-    group_name = "spectrum"
     # May raise ValueError, so get this before touching the file
     background_name = spectrum.get_background_name()
     if append:
@@ -244,16 +248,16 @@ def dump_limit_results(file_path, limit_results, append=False):
                  (limit_results.get_name(), file_path))
 
 
-def load(file_path):
+def load(file_path, group_name="spectrum"):
     """ Load a spectrum from file_path.
 
     Args:
       file_path (string): Location to save to.
+      group_name (string, optional): Name of the group to load from.
 
     Returns:
       Loaded spectrum (:class:`spectra.Spectra`).
     """
-    group_name = "spectrum"
     try:
         with h5py.File(file_path, "r") as file_:
             group = file_[group_name]
-- 
2.43.0


From bffaf01026fd0c9f8e522b64f581327faeddaf59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:33:51 +0000
Subject: [PATCH 38/95] fix: loading results reorders the fit parameters

The config is saved by type and dimension, so the axes of the loaded
arrays belonged to other parameters than when they were saved.
---
 echidna/output/store.py | 26 ++++++++++++++++++++++++++
 1 file changed, 26 insertions(+)

diff --git a/echidna/output/store.py b/echidna/output/store.py
index 629f28e..b26e267 100644
--- a/echidna/output/store.py
+++ b/echidna/output/store.py
@@ -177,6 +177,8 @@ def dump_fit_results(file_path, fit_results, append=False):
         group.attrs["fit_config"] = json.dumps(
             fit_results._fit_config.dump())
         group.attrs["fit_config_name"] = fit_results._fit_config.get_name()
+        group.attrs["fit_config_pars"] = json.dumps(
+            list(fit_results._fit_config.get_pars()))
 
         group.create_dataset("penalty_terms", data=fit_results._penalty_terms,
                              compression="gzip")
@@ -212,6 +214,8 @@ def dump_limit_results(file_path, limit_results, append=False):
         group.attrs["fit_config"] = json.dumps(
             limit_results._fit_config.dump())
         group.attrs["fit_config_name"] = limit_results._fit_config.get_name()
+        group.attrs["fit_config_pars"] = json.dumps(
+            list(limit_results._fit_config.get_pars()))
         group.attrs["limit_config"] = json.dumps(
             limit_results._limit_config.dump())
         group.attrs["limit_config_name"] = \
@@ -374,6 +378,26 @@ def load_ndarray(file_path, ndarray_object):
     return ndarray_object
 
 
+def _order_pars(fit_config, group):
+    """ Restore the order of the parameters of a loaded fit config, which
+    is the order of the axes of the saved arrays.
+
+    Args:
+      fit_config (:class:`echidna.core.config.GlobalFitConfig`): The loaded
+        fit config.
+      group (:class:`h5py.Group`): The group it was loaded from.
+    """
+    try:
+        names = json.loads(group.attrs["fit_config_pars"])
+    except KeyError as detail:  # saved without the order
+        _logger.warning("Handling run-time error: %s" % detail)
+        logging.getLogger("extra").warning(" --> keeping order of config")
+        return
+    pars = fit_config._parameters
+    fit_config._parameters = OrderedDict((str(name), pars[name])
+                                         for name in names)
+
+
 def load_fit_results(file_path):
     """ Load a :class:`FitResults` object from file.
 
@@ -404,6 +428,7 @@ def load_fit_results(file_path):
             spectral_config=json.loads(group.attrs["fit_config"],
                                        object_pairs_hook=OrderedDict)[1],
             name=fit_config_name)
+        _order_pars(fit_config, group)
 
         stats = group["stats"].value
         if stats.shape == fit_config.get_shape():
@@ -455,6 +480,7 @@ def load_limit_results(file_path):
         else:
             fit_config = GlobalFitConfig.load(global_config,
                                               name=fit_config_name)
+        _order_pars(fit_config, group)
         limit_config = json.loads(group.attrs["limit_config"],
                                   object_pairs_hook=OrderedDict)
         limit_config_name = group.attrs["limit_config_name"]
-- 
2.43.0


From 0bcf99a590aee5d02c1482b9ad8b44a8012b64c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:04 +0000
Subject: [PATCH 39/95] fix: fits loaded with limit results are incomplete

Per-bin fits were loaded as if not per-bin, so get_stats failed, and every
fit had the penalty terms of the last one.
---
 echidna/output/store.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/echidna/output/store.py b/echidna/output/store.py
index b26e267..d9ba79e 100644
--- a/echidna/output/store.py
+++ b/echidna/output/store.py
@@ -504,16 +504,21 @@ def load_limit_results(file_path):
                 sub_group_name = group_name+"/"+str(i)
                 sub_group = file_[sub_group_name]
                 if sub_group.attrs["exists"] == 1.:
+                    stats = sub_group["stats"].value
+                    per_bin = stats.shape != fit_config.get_shape()
                     fit_results = GridSearch(fit_config=fit_config,
                                              spectra_config=spectra_config,
-                                             name=fit_config_name)
-                    fit_results._stats = sub_group["stats"].value
+                                             name=fit_config_name,
+                                             per_bin=per_bin)
+                    fit_results.set_stats(stats)
                     fit_results._resets = sub_group.attrs["resets"]
                     fit_results._penalty_terms = sub_group[
                         "penalty_terms"].value
                     for par in fit_results._fit_config.get_pars():
                         p = fit_results._fit_config.get_par(par)
                         p.set_best_fit(limit_results.get_best_fit(i, par))
+                        p.set_penalty_term(
+                            limit_results.get_penalty_term(i, par))
                     limit_results._fit_results[i] = copy.deepcopy(fit_results)
     _logger.info("Loaded LimitResults %s" % limit_results.get_name())
     return limit_results
-- 
2.43.0


From 403f4289c2eccab791d12451faf4da75a956fc66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:54 +0000
Subject: [PATCH 40/95] fix: fit with a zero rate gives NaN at every other rate

The background itself was scaled to each rate in turn, and a spectrum
scaled to zero cannot be scaled again.
---
 echidna/core/parameter.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/echidna/core/parameter.py b/echidna/core/parameter.py
index d33f77c..9c086de 100644
--- a/echidna/core/parameter.py
+++ b/echidna/core/parameter.py
@@ -5,6 +5,7 @@ Contains :class:`Parameter` and all classes that inherit from it.
 import numpy
 
 import abc
+import copy
 import logging
 import warnings
 
@@ -681,8 +682,11 @@ class RateParameter(FitParameter):
         if self._current_value is None:
             raise ValueError("Current value of rate parameter %s "
                              "has not been set" % self._name)
-        spectrum.scale(self._current_value)
-        return spectrum
+        # Scale a copy, as a spectrum scaled to zero could not be scaled again
+        scaled = copy.copy(spectrum)
+        scaled._config = spectrum._config.copy()
+        scaled.scale(self._current_value)
+        return scaled
 
 
 class ResolutionParameter(FitParameter):
-- 
2.43.0


From 5200f93cd3a5bd47981c5a34668c76f79d3139bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:18 +0000
Subject: [PATCH 41/95] fix: per-bin fit fails if a floating background has
 finer bins

The grid took the bins of the background before it is rebinned to the data.
---
 echidna/fit/fit.py | 29 +++++++----------------------
 1 file changed, 7 insertions(+), 22 deletions(-)

diff --git a/echidna/fit/fit.py b/echidna/fit/fit.py
index 028efb2..49c1063 100644
--- a/echidna/fit/fit.py
+++ b/echidna/fit/fit.py
@@ -759,28 +759,13 @@ class Fit(object):
             self._logger.debug("Setting %s as minimiser" %
                                minimiser.get_name())
         else:  # Use default GridSearch
-            if self._per_bin:
-                if self._floating_backgrounds:
-                    self._minimiser = GridSearch(
-                        fit_config=self._fit_config,
-                        spectra_config=self._floating_backgrounds[0].
-                        get_config(),
-                        name=self._fit_config.get_name(),
-                        # This assumes fitting over all dimensions
-                        per_bin=self._per_bin)
-                else:
-                    self._minimiser = GridSearch(
-                        fit_config=self._fit_config,
-                        spectra_config=self._data.get_config(),
-                        name=self._fit_config.get_name(),
-                        # This assumes fitting over all dimensions
-                        per_bin=self._per_bin)
-            else:
-                self._minimiser = GridSearch(
-                    fit_config=self._fit_config,
-                    spectra_config=self._data.get_config(),
-                    name=self._fit_config.get_name(),
-                    per_bin=self._per_bin)
+            # per_bin assumes fitting over all dimensions. Backgrounds are
+            # rebinned to match the data
+            self._minimiser = GridSearch(
+                fit_config=self._fit_config,
+                spectra_config=self._data.get_config(),
+                name=self._fit_config.get_name(),
+                per_bin=self._per_bin)
             self._logger.debug("Created GridSearch (%s) to use as minimiser" %
                                self._minimiser.get_name())
 
-- 
2.43.0


From 5a355f9d63839b1ca8eb99ed594404896dc2d46c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:14 +0000
Subject: [PATCH 42/95] fix: parameter set to logscale cannot be loaded again

set_par(logscale=True) left the base unset, and a parameter saved with
logscale but no base raised a TypeError when it was loaded.
---
 echidna/core/parameter.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/echidna/core/parameter.py b/echidna/core/parameter.py
index 9c086de..5172f55 100644
--- a/echidna/core/parameter.py
+++ b/echidna/core/parameter.py
@@ -577,6 +577,8 @@ class FitParameter(Parameter):
                 self._bins = int(kwargs[kw])
             elif kw == "logscale":
                 self._logscale = bool(kwargs[kw])
+                if self._logscale and self._base is None:
+                    self._base = numpy.e
             elif kw == "base":
                 self._base = float(kwargs[kw])
             elif kw == "logscale_deviation":
-- 
2.43.0


From 74cbdb4add3026ac730d7dd69b8ef25aa8f447b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:16 +0000
Subject: [PATCH 43/95] fix: limit results load with the best fits of their
 last stored fit

The stored fits shared the fit config of the limit results while they were
loaded, so the last of them replaced its best fits and penalty terms.
---
 echidna/output/store.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/echidna/output/store.py b/echidna/output/store.py
index d9ba79e..49216c8 100644
--- a/echidna/output/store.py
+++ b/echidna/output/store.py
@@ -506,10 +506,10 @@ def load_limit_results(file_path):
                 if sub_group.attrs["exists"] == 1.:
                     stats = sub_group["stats"].value
                     per_bin = stats.shape != fit_config.get_shape()
-                    fit_results = GridSearch(fit_config=fit_config,
-                                             spectra_config=spectra_config,
-                                             name=fit_config_name,
-                                             per_bin=per_bin)
+                    fit_results = GridSearch(
+                        fit_config=copy.deepcopy(fit_config),
+                        spectra_config=copy.deepcopy(spectra_config),
+                        name=fit_config_name, per_bin=per_bin)
                     fit_results.set_stats(stats)
                     fit_results._resets = sub_group.attrs["resets"]
                     fit_results._penalty_terms = sub_group[
@@ -519,6 +519,6 @@ def load_limit_results(file_path):
                         p.set_best_fit(limit_results.get_best_fit(i, par))
                         p.set_penalty_term(
                             limit_results.get_penalty_term(i, par))
-                    limit_results._fit_results[i] = copy.deepcopy(fit_results)
+                    limit_results._fit_results[i] = fit_results
     _logger.info("Loaded LimitResults %s" % limit_results.get_name())
     return limit_results
-- 
2.43.0


From 2521a3e041667530ef749055445fcde89af4bde1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:37 +0000
Subject: [PATCH 44/95] fix: get_limit_stat reads an attribute that does not
 exist

---
 echidna/fit/fit_results.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/echidna/fit/fit_results.py b/echidna/fit/fit_results.py
index 9f35a0d..c8cfa04 100644
--- a/echidna/fit/fit_results.py
+++ b/echidna/fit/fit_results.py
@@ -210,7 +210,7 @@ class LimitResults(FitResults):
         Returns:
           float: The test statistic without the penalty contribution.
         """
-        return self._limit_stat[i]
+        return self._stats[i]
 
     def get_stats(self):
         """Gets the test statistics without the penalty contribution.
-- 
2.43.0


From 92a5fff4adc576ee34c2975ffa250b516c9b82e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:37 +0000
Subject: [PATCH 45/95] fix: limit uses the signal of another limit with the
 same fitter

---
 echidna/limit/limit.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/echidna/limit/limit.py b/echidna/limit/limit.py
index 6fe9a63..b525636 100644
--- a/echidna/limit/limit.py
+++ b/echidna/limit/limit.py
@@ -178,7 +178,7 @@ class Limit(object):
             self._logger.debug("signal scale: %.4g" % scale)
             print "scale", scale
             if not numpy.isclose(scale, 0.):
-                if self._fitter.get_signal() is None:
+                if self._fitter.get_signal() is not self._signal:
                     self._fitter.set_signal(self._signal, shrink=False)
                 self._fitter._signal.scale(scale)
             else:  # want no signal contribution
-- 
2.43.0


From 87ee622c75ddf2352a7fb36ec3894846b2713d74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:01 +0000
Subject: [PATCH 46/95] fix: scaling or shifting an empty spectrum gives NaN

---
 echidna/core/scale.py | 3 ++-
 echidna/core/shift.py | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/echidna/core/scale.py b/echidna/core/scale.py
index 47a6d4d..89aa054 100644
--- a/echidna/core/scale.py
+++ b/echidna/core/scale.py
@@ -167,6 +167,7 @@ class Scale(object):
                 exec(fill_cmd)
         # renormalise to prescale number of counts
         scaled_spec._num_decays = scaled_spec.sum()
-        scaled_spec.scale(prescale_sum)
+        if scaled_spec._num_decays != 0.:  # Otherwise nothing to normalise
+            scaled_spec.scale(prescale_sum)
         scaled_spec._num_decays = spectrum._num_decays
         return scaled_spec
diff --git a/echidna/core/shift.py b/echidna/core/shift.py
index 146691e..46f394c 100644
--- a/echidna/core/shift.py
+++ b/echidna/core/shift.py
@@ -164,7 +164,8 @@ class Shift(object):
                 exec(fill_cmd)
         # renormalise to prescale number of counts
         shifted_spec._num_decays = shifted_spec.sum()
-        shifted_spec.scale(preshift_sum)
+        if shifted_spec._num_decays != 0.:  # Otherwise nothing to normalise
+            shifted_spec.scale(preshift_sum)
         shifted_spec._num_decays = spectrum._num_decays
         return shifted_spec
 
-- 
2.43.0


From f36f1e0f4fd4edde087a11e479c13d65a770d9c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:36 +0000
Subject: [PATCH 47/95] fix: fit uses spectra convolved in the previous region
 of interest

---
 echidna/fit/fit.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/echidna/fit/fit.py b/echidna/fit/fit.py
index 49c1063..f288dd8 100644
--- a/echidna/fit/fit.py
+++ b/echidna/fit/fit.py
@@ -790,6 +790,7 @@ class Fit(object):
         """
         self.check_roi(roi)
         self._roi = roi
+        self._global_dict = {}  # Convolved in the previous roi
         self._logger.debug("Set _roi as %s" % str(roi))
         self._checked = False  # Must redo checks for a new roi
 
-- 
2.43.0


From d0dc8cd775fee488cb470b89647f902cb21d3a97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:05 +0000
Subject: [PATCH 48/95] fix: no limit on per-bin statistics raises IndexError

---
 echidna/fit/fit_results.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/echidna/fit/fit_results.py b/echidna/fit/fit_results.py
index c8cfa04..2fe7431 100644
--- a/echidna/fit/fit_results.py
+++ b/echidna/fit/fit_results.py
@@ -192,7 +192,7 @@ class LimitResults(FitResults):
         Returns:
           numpy.ndarray: The test statistics array with penalty terms addded.
         """
-        stats = numpy.zeros(self._stats.shape)
+        stats = numpy.zeros(len(self._stats))  # One for each scale
         for i, stat in enumerate(self._stats):
             stat = numpy.sum(stat)
             for penalty in self._penalty_terms[i]:
-- 
2.43.0


From c1e3fdca0a2300e64260364df128b848f05dd4bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:44:06 +0000
Subject: [PATCH 49/95] fix: limit results keep the stored fits of an earlier
 limit

---
 echidna/limit/limit.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/echidna/limit/limit.py b/echidna/limit/limit.py
index b525636..6996489 100644
--- a/echidna/limit/limit.py
+++ b/echidna/limit/limit.py
@@ -143,6 +143,8 @@ class Limit(object):
           float: The signal scaling at the limit you are setting.
         """
         par = self._signal.get_fit_config().get_par("rate")
+        # Forget any fits stored by an earlier call
+        self._limit_results._fit_results[:] = None
 
         if min_stat is not None:  # If supplied specific stat_zero use this
             self._logger.warning("Overriding min_stat with supplied value")
-- 
2.43.0


From 790b2b2a18af43cdf0b004d0d4eb27a02276ed0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:45:20 +0000
Subject: [PATCH 50/95] fix: results of fits without parameters cannot be saved

---
 echidna/output/store.py | 39 +++++++++++++++++++++++++--------------
 1 file changed, 25 insertions(+), 14 deletions(-)

diff --git a/echidna/output/store.py b/echidna/output/store.py
index 49216c8..aee48ab 100644
--- a/echidna/output/store.py
+++ b/echidna/output/store.py
@@ -180,10 +180,8 @@ def dump_fit_results(file_path, fit_results, append=False):
         group.attrs["fit_config_pars"] = json.dumps(
             list(fit_results._fit_config.get_pars()))
 
-        group.create_dataset("penalty_terms", data=fit_results._penalty_terms,
-                             compression="gzip")
-        group.create_dataset("stats", data=fit_results._stats,
-                             compression="gzip")
+        _create_dataset(group, "penalty_terms", fit_results._penalty_terms)
+        _create_dataset(group, "stats", fit_results._stats)
         group.attrs["resets"] = fit_results._resets
 
     _logger.info("Saved fit results %s to %s" %
@@ -238,11 +236,9 @@ def dump_limit_results(file_path, limit_results, append=False):
                 sub_group = group.create_group(str(i))
                 if type(fit_result) is GridSearch:
                     sub_group.attrs["exists"] = 1.
-                    sub_group.create_dataset("penalty_terms",
-                                             data=fit_result._penalty_terms,
-                                             compression="gzip")
-                    sub_group.create_dataset("stats", data=fit_result._stats,
-                                             compression="gzip")
+                    _create_dataset(sub_group, "penalty_terms",
+                                    fit_result._penalty_terms)
+                    _create_dataset(sub_group, "stats", fit_result._stats)
                     sub_group.attrs["resets"] = fit_result._resets
                 else:
                     sub_group.attrs["exists"] = 0.
@@ -378,6 +374,20 @@ def load_ndarray(file_path, ndarray_object):
     return ndarray_object
 
 
+def _create_dataset(group, name, array):
+    """ Save an array, which is a scalar for a fit without parameters.
+
+    Args:
+      group (:class:`h5py.Group`): The group to save it in.
+      name (string): Name of the dataset.
+      array (:class:`numpy.ndarray`): The array to save.
+    """
+    if array.ndim == 0:  # Scalar datasets can't be compressed
+        group.create_dataset(name, data=array)
+    else:
+        group.create_dataset(name, data=array, compression="gzip")
+
+
 def _order_pars(fit_config, group):
     """ Restore the order of the parameters of a loaded fit config, which
     is the order of the axes of the saved arrays.
@@ -430,7 +440,7 @@ def load_fit_results(file_path):
             name=fit_config_name)
         _order_pars(fit_config, group)
 
-        stats = group["stats"].value
+        stats = numpy.array(group["stats"].value)
         if stats.shape == fit_config.get_shape():
             per_bin = False
         elif stats.shape == fit_config.get_shape() + \
@@ -443,7 +453,8 @@ def load_fit_results(file_path):
                                  spectra_config=spectra_config, name=name,
                                  per_bin=per_bin)
         fit_results.set_stats(stats)
-        fit_results.set_penalty_terms(group["penalty_terms"].value)
+        fit_results.set_penalty_terms(
+            numpy.array(group["penalty_terms"].value))
         fit_results._resets = group.attrs["resets"]
 
     _logger.info("Loaded FitResults %s" % fit_results.get_name())
@@ -504,7 +515,7 @@ def load_limit_results(file_path):
                 sub_group_name = group_name+"/"+str(i)
                 sub_group = file_[sub_group_name]
                 if sub_group.attrs["exists"] == 1.:
-                    stats = sub_group["stats"].value
+                    stats = numpy.array(sub_group["stats"].value)
                     per_bin = stats.shape != fit_config.get_shape()
                     fit_results = GridSearch(
                         fit_config=copy.deepcopy(fit_config),
@@ -512,8 +523,8 @@ def load_limit_results(file_path):
                         name=fit_config_name, per_bin=per_bin)
                     fit_results.set_stats(stats)
                     fit_results._resets = sub_group.attrs["resets"]
-                    fit_results._penalty_terms = sub_group[
-                        "penalty_terms"].value
+                    fit_results._penalty_terms = numpy.array(
+                        sub_group["penalty_terms"].value)
                     for par in fit_results._fit_config.get_pars():
                         p = fit_results._fit_config.get_par(par)
                         p.set_best_fit(limit_results.get_best_fit(i, par))
-- 
2.43.0


From ae5456651a246a1eeb2073677333fcf97884b4c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:00:20 +0000
Subject: [PATCH 51/95] fix: blank file names write global and spectral
 parameters to one file

---
 echidna/core/config.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/echidna/core/config.py b/echidna/core/config.py
index 151b158..a24ae85 100644
--- a/echidna/core/config.py
+++ b/echidna/core/config.py
@@ -334,7 +334,7 @@ class GlobalFitConfig(Config):
         if global_fname is None:
             global_fname = "global_fit_config"
         elif global_fname == "":
-            global_fname = self.get_name()
+            global_fname = self.get_name() + "_global"
         if ".yml" not in global_fname:
             global_fname += ".yml"
         yaml_loader.ordered_dump_to_file(
@@ -343,7 +343,7 @@ class GlobalFitConfig(Config):
         if spectral_fname is None:
             spectral_fname = "spectral_fit_config"
         elif spectral_fname == "":
-            spectral_fname = self.get_name()
+            spectral_fname = self.get_name() + "_spectral"
         if ".yml" not in spectral_fname:
             spectral_fname += ".yml"
         yaml_loader.ordered_dump_to_file(
@@ -576,7 +576,7 @@ class SpectraFitConfig(Config):
         if spectral_fname is None:
             spectral_fname = "spectral_fit_config"
         elif spectral_fname == "":
-            spectral_fname = self.get_name()
+            spectral_fname = self.get_name() + "_spectral"
         if ".yml" not in spectral_fname:
             spectral_fname += ".yml"
         yaml_loader.ordered_dump_to_file(
-- 
2.43.0


From 8cf453ad005c01e61e37b88a2c51010f43aa8232 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:00:20 +0000
Subject: [PATCH 52/95] fix: configs are not written into a directory without
 trailing slash

---
 echidna/core/config.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/echidna/core/config.py b/echidna/core/config.py
index a24ae85..073984e 100644
--- a/echidna/core/config.py
+++ b/echidna/core/config.py
@@ -7,6 +7,7 @@ from echidna.core.parameter import (RateParameter, ScaleParameter,
                                     SpectraParameter)
 import echidna.util.yaml_loader as yaml_loader
 
+import os
 import copy
 import logging
 import abc
@@ -338,7 +339,7 @@ class GlobalFitConfig(Config):
         if ".yml" not in global_fname:
             global_fname += ".yml"
         yaml_loader.ordered_dump_to_file(
-            global_fit_config, path+global_fname, indent=8)
+            global_fit_config, os.path.join(path, global_fname), indent=8)
 
         if spectral_fname is None:
             spectral_fname = "spectral_fit_config"
@@ -347,7 +348,7 @@ class GlobalFitConfig(Config):
         if ".yml" not in spectral_fname:
             spectral_fname += ".yml"
         yaml_loader.ordered_dump_to_file(
-            spectral_fit_config, path+spectral_fname, indent=8)
+            spectral_fit_config, os.path.join(path, spectral_fname), indent=8)
 
     def get_par(self, name):
         """ Get requested parameter:
@@ -580,7 +581,7 @@ class SpectraFitConfig(Config):
         if ".yml" not in spectral_fname:
             spectral_fname += ".yml"
         yaml_loader.ordered_dump_to_file(
-            spectral_fit_config, path+spectral_fname, indent=8)
+            spectral_fit_config, os.path.join(path, spectral_fname), indent=8)
 
     @classmethod
     def load(cls, config, spectra_name, name="spectral_fit_config"):
@@ -723,7 +724,7 @@ class SpectraConfig(Config):
             filename = self.get_name()
         if ".yml" not in filename:
             filename += ".yml"
-        yaml_loader.ordered_dump_to_file(config, path+filename, indent=8)
+        yaml_loader.ordered_dump_to_file(config, os.path.join(path, filename), indent=8)
 
     @classmethod
     def load(cls, config, name="config"):
-- 
2.43.0


From 4fc68b26ee81623b09b2fc1343527e7516e7ea74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:00:20 +0000
Subject: [PATCH 53/95] fix: config name is cut off if its file has no
 extension

---
 echidna/core/config.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/echidna/core/config.py b/echidna/core/config.py
index 073984e..b0c19bd 100644
--- a/echidna/core/config.py
+++ b/echidna/core/config.py
@@ -508,7 +508,7 @@ class GlobalFitConfig(Config):
         if name is None:
             return cls.load(config, spectral_config=spectral_fit_config)
         if name == "":
-            name = filename[filename.rfind("/")+1:filename.rfind(".")]
+            name = os.path.splitext(os.path.basename(filename))[0]
         return cls.load(config, spectral_config=spectral_fit_config, name=name)
 
 
@@ -652,7 +652,7 @@ class SpectraFitConfig(Config):
         if name is None:
             return cls.load(config, spectra_name)
         if name == "":
-            name = filename[filename.rfind("/")+1:filename.rfind(".")]
+            name = os.path.splitext(os.path.basename(filename))[0]
         return cls.load(config, spectra_name, name=name)
 
 
@@ -788,7 +788,7 @@ class SpectraConfig(Config):
         if name is None:
             return cls.load(config)
         if name == "":
-            name = filename[filename.rfind("/")+1:filename.rfind(".")]
+            name = os.path.splitext(os.path.basename(filename))[0]
         return cls.load(config, name)
 
     def get_dims(self):
-- 
2.43.0


From 06100237153e6125f17d2918d565108149a77ff6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:03:14 +0000
Subject: [PATCH 54/95] fix: logscale_deviation leaves out the prior if it is
 close to a bound

---
 echidna/core/parameter.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/echidna/core/parameter.py b/echidna/core/parameter.py
index 5172f55..8cdd96e 100644
--- a/echidna/core/parameter.py
+++ b/echidna/core/parameter.py
@@ -463,6 +463,11 @@ class FitParameter(Parameter):
                 # Calculate bins above and below, distributing evenly
                 bins_low = int(numpy.rint(
                     (delta_low) / (delta_low + delta_high) * (self._bins + 1)))
+                # Always include the prior and both ends
+                min_low = 2 if delta_low > 0. else 1
+                min_high = 2 if delta_high > 0. else 1
+                bins_low = max(bins_low, min_low)
+                bins_low = max(min(bins_low, self._bins + 1 - min_high), 1)
                 bins_high = self._bins + 1 - bins_low
 
                 # Calculate arrays of deviation, linear in logspace
-- 
2.43.0


From 319cd2d07a0c803fe608db86207797d48dddf5c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:52:09 +0000
Subject: [PATCH 55/95] fix: adding a spectrum whose axes are in another order
 mixes them up

---
 echidna/core/spectra.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/echidna/core/spectra.py b/echidna/core/spectra.py
index b8e0889..3260ed2 100644
--- a/echidna/core/spectra.py
+++ b/echidna/core/spectra.py
@@ -100,12 +100,14 @@ class Spectra(object):
                 dim = spectrum.get_config().get_dim(v)
                 dim_type = spectrum._config.get_dim_type(dim)
                 types[dim] = dim_type
+        axes = []  # Axes of spectrum, in the order of those of this spectra
         for v in self._config.get_pars():
             dim = self._config.get_dim(v)
             if dim in types:
                 v_spec = dim+'_'+types[dim]
             else:
                 v_spec = v
+            axes.append(spectrum.get_config().get_index(v_spec))
             if not numpy.allclose(self.get_config().get_par(v)._high,
                                   spectrum.get_config().get_par(v_spec)._high):
                 raise ValueError("Upper %s bounds in spectra are not equal."
@@ -133,7 +135,7 @@ class Spectra(object):
                                     spectrum._name,
                                     spectrum.get_config().get_par(v_spec)
                                     ._bins))
-        self._data += spectrum._data
+        self._data += spectrum._data.transpose(axes)
         self._raw_events += spectrum._raw_events
         self._num_decays += spectrum._num_decays
 
-- 
2.43.0


From 24c339efc8cfa19065331828b81f0df5971d76c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:52:32 +0000
Subject: [PATCH 56/95] fix: filling with a value just below the upper bound
 raises IndexError

---
 echidna/core/spectra.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/echidna/core/spectra.py b/echidna/core/spectra.py
index 3260ed2..87bbe84 100644
--- a/echidna/core/spectra.py
+++ b/echidna/core/spectra.py
@@ -195,10 +195,12 @@ class Spectra(object):
                 raise ValueError("%s out of range: %s" % (v, kwargs[v]))
         bins = []
         for v in self._config.get_pars():
-            bins.append(int((kwargs[v] - self._config.get_par(v)._low) /
-                            (self._config.get_par(v)._high -
-                             self._config.get_par(v)._low) *
-                            self._config.get_par(v)._bins))
+            cur_bin = int((kwargs[v] - self._config.get_par(v)._low) /
+                          (self._config.get_par(v)._high -
+                           self._config.get_par(v)._low) *
+                          self._config.get_par(v)._bins)
+            # Values just below the upper bound may be rounded up to it
+            bins.append(min(cur_bin, self._config.get_par(v)._bins - 1))
         self._data[tuple(bins)] += weight
 
     def get_background_name(self):
-- 
2.43.0


From 458fc49690c90005cb68d971bc714a22a3d48acd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:59:05 +0000
Subject: [PATCH 57/95] fix: weighted smearing never puts events in the last
 bin

---
 echidna/core/smear.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/echidna/core/smear.py b/echidna/core/smear.py
index b5b1176..98b7aa8 100644
--- a/echidna/core/smear.py
+++ b/echidna/core/smear.py
@@ -260,9 +260,9 @@ class EnergySmearLY(Smear):
                         if low < spectrum.get_config().get_par(par)._low:
                             low = spectrum.get_config().get_par(par)._low + \
                                 0.5 * widths[i]
+                        # high itself is not in the window
                         if high > spectrum.get_config().get_par(par)._high:
-                            high = spectrum.get_config().get_par(par)._high - \
-                                0.5 * widths[i]
+                            high = spectrum.get_config().get_par(par)._high
                         weights = []
                         for energy in numpy.arange(low, high, widths[i]):
                             if self._poisson_smear is True:
@@ -510,9 +510,9 @@ class EnergySmearRes(Smear):
                         if low < spectrum.get_config().get_par(par)._low:
                             low = spectrum.get_config().get_par(par)._low + \
                                 0.5 * widths[i]
+                        # high itself is not in the window
                         if high > spectrum.get_config().get_par(par)._high:
-                            high = spectrum.get_config().get_par(par)._high - \
-                                0.5 * widths[i]
+                            high = spectrum.get_config().get_par(par)._high
                         weights = []
                         for energy in numpy.arange(low, high, widths[i]):
                             if self._poisson_smear is True:
@@ -730,9 +730,9 @@ class RadialSmear(Smear):
                         if low < spectrum.get_config().get_par(par)._low:
                             low = spectrum.get_config().get_par(par)._low + \
                                 0.5 * widths[i]
+                        # high itself is not in the window
                         if high > spectrum.get_config().get_par(par)._high:
-                            high = spectrum.get_config().get_par(par)._high - \
-                                0.5 * widths[i]
+                            high = spectrum.get_config().get_par(par)._high
                         weights = []
                         for radius in numpy.arange(low, high, widths[i]):
                             weights.append(self.calc_gaussian(radius,
-- 
2.43.0


From 570a73dd9347f1bf3bf2d92ac6fc5683e4f256e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:59:31 +0000
Subject: [PATCH 58/95] fix: convolved spectra share the regions of interest of
 the original

---
 echidna/core/parameter.py | 1 +
 echidna/core/scale.py     | 1 +
 echidna/core/shift.py     | 2 ++
 echidna/core/smear.py     | 6 ++++++
 4 files changed, 10 insertions(+)

diff --git a/echidna/core/parameter.py b/echidna/core/parameter.py
index 8cdd96e..f55b1f4 100644
--- a/echidna/core/parameter.py
+++ b/echidna/core/parameter.py
@@ -692,6 +692,7 @@ class RateParameter(FitParameter):
         # Scale a copy, as a spectrum scaled to zero could not be scaled again
         scaled = copy.copy(spectrum)
         scaled._config = spectrum._config.copy()
+        scaled._rois = copy.copy(spectrum._rois)
         scaled.scale(self._current_value)
         return scaled
 
diff --git a/echidna/core/scale.py b/echidna/core/scale.py
index 89aa054..a001e40 100644
--- a/echidna/core/scale.py
+++ b/echidna/core/scale.py
@@ -53,6 +53,7 @@ class Scale(object):
         sf = self.get_scale_factor()
         scaled_spec = copy.copy(spectrum)
         scaled_spec._config = spectrum._config.copy()
+        scaled_spec._rois = copy.copy(spectrum._rois)
         scaled_spec._name = spectrum._name + "_sf" + str(sf)
         scaled_spec._data = numpy.zeros(spectrum._data.shape)
         n_dim = len(spectrum._data.shape)
diff --git a/echidna/core/shift.py b/echidna/core/shift.py
index 46f394c..32210c6 100644
--- a/echidna/core/shift.py
+++ b/echidna/core/shift.py
@@ -51,6 +51,7 @@ class Shift(object):
         interpolation = spectrum.interpolate1d(dimension, **kwargs)
         shifted_spec = copy.copy(spectrum)
         shifted_spec._config = spectrum._config.copy()
+        shifted_spec._rois = copy.copy(spectrum._rois)
         shifted_spec._name = spectrum._name + "_shift" + str(shift)
         shifted_spec._data = numpy.zeros(spectrum._data.shape)
         n_dim = len(spectrum._data.shape)
@@ -188,6 +189,7 @@ class Shift(object):
                              % (shift, step))
         shifted_spec = copy.copy(spectrum)
         shifted_spec._config = spectrum._config.copy()
+        shifted_spec._rois = copy.copy(spectrum._rois)
         shifted_spec._name = spectrum._name + "_shift" + str(shift)
         shifted_spec._data = numpy.zeros(spectrum._data.shape)
         n_dim = len(spectrum._data.shape)
diff --git a/echidna/core/smear.py b/echidna/core/smear.py
index 98b7aa8..12d320c 100644
--- a/echidna/core/smear.py
+++ b/echidna/core/smear.py
@@ -239,6 +239,7 @@ class EnergySmearLY(Smear):
             par_names.append(par_name)
         smeared_spec = copy.copy(spectrum)
         smeared_spec._config = spectrum._config.copy()
+        smeared_spec._rois = copy.copy(spectrum._rois)
         smeared_spec._name = spectrum._name + "_ly" + str(self._light_yield)
         smeared_spec._data = numpy.zeros(spectrum._data.shape)
         for bin in itertools.product(*bins):
@@ -317,6 +318,7 @@ class EnergySmearLY(Smear):
             par_names.append(par_name)
         smeared_spec = copy.copy(spectrum)
         smeared_spec._config = spectrum._config.copy()
+        smeared_spec._rois = copy.copy(spectrum._rois)
         smeared_spec._name = spectrum._name + "_ly" + str(self._light_yield)
         smeared_spec._data = numpy.zeros(spectrum._data.shape)
         for bin in itertools.product(*bins):
@@ -488,6 +490,7 @@ class EnergySmearRes(Smear):
             par_names.append(par_name)
         smeared_spec = copy.copy(spectrum)
         smeared_spec._config = spectrum._config.copy()
+        smeared_spec._rois = copy.copy(spectrum._rois)
         smeared_spec._name = (spectrum._name + "_" +
                               str(100. * self._resolution) + "%")
         smeared_spec._data = numpy.zeros(spectrum._data.shape)
@@ -567,6 +570,7 @@ class EnergySmearRes(Smear):
             par_names.append(par_name)
         smeared_spec = copy.copy(spectrum)
         smeared_spec._config = spectrum._config.copy()
+        smeared_spec._rois = copy.copy(spectrum._rois)
         smeared_spec._name = (spectrum._name + "_" +
                               str(100. * self._resolution) + "%")
         smeared_spec._data = numpy.zeros(spectrum._data.shape)
@@ -708,6 +712,7 @@ class RadialSmear(Smear):
             par_names.append(par_name)
         smeared_spec = copy.copy(spectrum)
         smeared_spec._config = spectrum._config.copy()
+        smeared_spec._rois = copy.copy(spectrum._rois)
         smeared_spec._name = (spectrum._name + "_" +
                               str(100. * self._resolution) + "mm")
         smeared_spec._data = numpy.zeros(spectrum._data.shape)
@@ -783,6 +788,7 @@ class RadialSmear(Smear):
             par_names.append(par_name)
         smeared_spec = copy.copy(spectrum)
         smeared_spec._config = spectrum._config.copy()
+        smeared_spec._rois = copy.copy(spectrum._rois)
         smeared_spec._name = (spectrum._name + "_" +
                               str(100. * self._resolution) + "mm")
         smeared_spec._data = numpy.zeros(spectrum._data.shape)
-- 
2.43.0


From 546c92a4df5ffa9c520c64bbd861a79ccb5a0bbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:59:44 +0000
Subject: [PATCH 59/95] fix: poisson smearing by energy resolution does not
 depend on the resolution

---
 echidna/core/smear.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/echidna/core/smear.py b/echidna/core/smear.py
index 12d320c..8c973ef 100644
--- a/echidna/core/smear.py
+++ b/echidna/core/smear.py
@@ -454,6 +454,8 @@ class EnergySmearRes(Smear):
         """
         if (resolution > 0. and resolution < 1.):
             self._resolution = resolution
+            # Light yield for poisson smearing, with the same sigma
+            self._light_yield = 1. / float(resolution) ** 2
         else:
             raise ValueError("%s is an invalid energy resolution. Value "
                              "must be between 0. and 1." % resolution)
-- 
2.43.0


From da0e0b64badd4714936fe598f3b3409340420d69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:59:59 +0000
Subject: [PATCH 60/95] fix: shifts by a whole number of bins are not always
 recognised

---
 echidna/core/shift.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/echidna/core/shift.py b/echidna/core/shift.py
index 32210c6..7188378 100644
--- a/echidna/core/shift.py
+++ b/echidna/core/shift.py
@@ -44,7 +44,8 @@ class Shift(object):
         """
         shift = self.get_shift()
         step = spectrum.get_config().get_par(dimension).get_width()
-        if numpy.isclose(shift % step, 0.):
+        n_steps = shift / step
+        if numpy.isclose(n_steps, numpy.round(n_steps), rtol=0.):
             # shift size multiple of step size. Interpolation not required.
             return self.shift_by_bin(spectrum, dimension)
         preshift_sum = spectrum.sum()
@@ -184,7 +185,8 @@ class Shift(object):
         """
         shift = self.get_shift()
         step = spectrum.get_config().get_par(dimension).get_width()
-        if not numpy.isclose(shift % step, 0.):
+        n_steps = shift / step
+        if not numpy.isclose(n_steps, numpy.round(n_steps), rtol=0.):
             raise ValueError("Shift (%s) must be a multiple of bin width (%s)"
                              % (shift, step))
         shifted_spec = copy.copy(spectrum)
-- 
2.43.0


From 777ab458d6f10685e43577cbb5905ffc4345533e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:48:00 +0000
Subject: [PATCH 61/95] fix: spectra made from one config share its bounds and
 bins

---
 echidna/core/spectra.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/echidna/core/spectra.py b/echidna/core/spectra.py
index 87bbe84..f6a78e9 100644
--- a/echidna/core/spectra.py
+++ b/echidna/core/spectra.py
@@ -44,7 +44,9 @@ class Spectra(object):
                  background_name=None):
         """ Initialise the spectra data container.
         """
-        self._config = spectra_config
+        # Own copy: other spectra may be created from the same config, and the
+        # bounds and bins change when this spectrum is shrunk or rebinned
+        self._config = spectra_config.copy()
         self._raw_events = 0
         bins = []
         for v in self._config.get_pars():
-- 
2.43.0


From 61d5b68a99786b2765dd5a8d6692d48a94716846 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:49:45 +0000
Subject: [PATCH 62/95] fix: spectra with a zradial3 axis cannot be filled

The extractors did not pass external to their base class, which requires it.
---
 echidna/core/dsextract.py | 31 +++++++++++++++++++++++++++----
 1 file changed, 27 insertions(+), 4 deletions(-)

diff --git a/echidna/core/dsextract.py b/echidna/core/dsextract.py
index 83c01b4..2af2d93 100644
--- a/echidna/core/dsextract.py
+++ b/echidna/core/dsextract.py
@@ -1084,22 +1084,33 @@ class ZRadial3ExtractMC(Extractor):
         :math:``(z/\lvert z \rvert)(radius/outer\_radius)^3`. If None then
         the av_radius in :class:`echidna.calc.constants` is used in the
         calculation.
+      external (bool, optional): Set to True for external backgrounds.
+        Default is False.
 
     Attributes:
       _outer_radius (float): The fixed radius used in calculating
         :math:``(z/\lvert z \rvert)(radius/outer\_radius)^3`.
       _reco_pos (bool): If true then position cuts will be made on
       reconstructed position. If False then MC position is used for cuts.
+
+    Raises:
+      ValueError: If external is True. Cant have MC Positions info for
+        externals. These are original isotope positions
+        (outside active volume).
     '''
 
-    def __init__(self, fv_radius=None, outer_radius=None, reco_pos=False):
+    def __init__(self, fv_radius=None, outer_radius=None, external=False,
+                 reco_pos=False):
         '''Initialise the class
         '''
-        super(ZRadial3ExtractMC, self).__init__("zradial3_mc", fv_radius)
+        super(ZRadial3ExtractMC, self).__init__("zradial3_mc", fv_radius,
+                                                external)
         if outer_radius:
             self._outer_radius = outer_radius
         else:
             self._outer_radius = const._av_radius
+        if external:
+            raise ValueError("External is True. No mc pos info for externals")
         self._reco_pos = reco_pos
 
     def fv_cut_ntuple(self, entry):
@@ -1237,6 +1248,8 @@ class ZRadial3ExtractReco(Extractor):
         :math:``(z/\lvert z \rvert)(radius/outer\_radius)^3`. If None then
         the av_radius in :class:`echidna.calc.constants` is used in the
         calculation.
+      external (bool, optional): Set to True for external backgrounds.
+        Default is False.
       mc_pos (bool, optional): If true then  MC position is used for cuts.
         If False (default) then position cuts will be made on reconstructed
         position.
@@ -1246,16 +1259,26 @@ class ZRadial3ExtractReco(Extractor):
         :math:``(z/\lvert z \rvert)(radius/outer\_radius)^3`.
       _mc_pos (bool): If true then MC position is used for cuts.
         If False then position cuts will be made on reconstructed position.
+
+    Raises:
+      ValueError: If external and mc_pos is True. Cant have MC Positions info
+        for externals. These are original isotope positions
+        (outside active volume).
     '''
 
-    def __init__(self, fv_radius=None, outer_radius=None, mc_pos=False):
+    def __init__(self, fv_radius=None, outer_radius=None, external=False,
+                 mc_pos=False):
         '''Initialise the class
         '''
-        super(ZRadial3ExtractReco, self).__init__("zradial3_reco", fv_radius)
+        super(ZRadial3ExtractReco, self).__init__("zradial3_reco", fv_radius,
+                                                  external)
         if outer_radius:
             self._outer_radius = outer_radius
         else:
             self._outer_radius = const._av_radius
+        if external and mc_pos:
+            raise ValueError("External and mc_pos are True. Can't have mc_pos "
+                             "for externals.")
         self._mc_pos = mc_pos
 
     def fv_cut_ntuple(self, entry):
-- 
2.43.0


From d93d741a1ace341f36db973c720d007a86c32984 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:49:45 +0000
Subject: [PATCH 63/95] fix: zradial3_reco of a root file: misspelt methods and
 missing sign

---
 echidna/core/dsextract.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/echidna/core/dsextract.py b/echidna/core/dsextract.py
index 2af2d93..f47d0dd 100644
--- a/echidna/core/dsextract.py
+++ b/echidna/core/dsextract.py
@@ -1355,9 +1355,9 @@ class ZRadial3ExtractReco(Extractor):
           float: Reconstructed
             :math:``(z/\lvert z \rvert)(radius/outer\_radius)^3`
         '''
-        if ev.GetDefaultFitVertec().GetPositon()[2] < 0.:
-            return 1. * (ev.GetDefaultFitVertex().GetPosition().Mag() /
-                         self._outer_radius) ** 3
+        if ev.GetDefaultFitVertex().GetPosition()[2] < 0.:
+            return -1. * (ev.GetDefaultFitVertex().GetPosition().Mag() /
+                          self._outer_radius) ** 3
         else:
             return (ev.GetDefaultFitVertex().GetPosition().Mag() /
                     self._outer_radius) ** 3
-- 
2.43.0


From 8b949a5c540028e3fc9f11b3e61ccba86ca4faa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:49:45 +0000
Subject: [PATCH 64/95] fix: bipo cut drops the last event of an ntuple

---
 echidna/core/fill_spectrum.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/echidna/core/fill_spectrum.py b/echidna/core/fill_spectrum.py
index ca3860a..aba566d 100644
--- a/echidna/core/fill_spectrum.py
+++ b/echidna/core/fill_spectrum.py
@@ -51,6 +51,12 @@ def _bipo_ntuple(spectrum, chain, extractors):
             else:
                 check_next = False
                 break
+    if check_next:  # No event follows the last one
+        try:
+            spectrum.fill(**fill_kwargs)
+            spectrum._raw_events += 1
+        except ValueError:
+            pass
     return spectrum
 
 
-- 
2.43.0


From e4b2e8207b7056f28e090d8956b82c970a6d1e58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:49:45 +0000
Subject: [PATCH 65/95] fix: counts of particles and evs are compared without
 calling them

---
 echidna/core/dsextract.py | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/echidna/core/dsextract.py b/echidna/core/dsextract.py
index f47d0dd..d328180 100644
--- a/echidna/core/dsextract.py
+++ b/echidna/core/dsextract.py
@@ -148,7 +148,7 @@ class EnergyExtractMC(Extractor):
             if mc.GetMCParticle(0).GetPosition().Mag() < self._fv_radius:
                 return True  # Passes fiducial volume cut
             return False  # Fails fiducial volume cut
-        if ds.GetEVCount == 0:
+        if ds.GetEVCount() == 0:
             return False  # Failed reconstruction
         # Reco cut on MC value requires 1 ev else which position to use?
         if ds.GetEVCount() != 1:
@@ -170,9 +170,9 @@ class EnergyExtractMC(Extractor):
           bool: Validity boolean
         '''
         if self._external:
-            if ds.GetEVCount == 0:
+            if ds.GetEVCount() == 0:
                 return False  # Failed reconstruction
-        if mc.GetMCParticleCount > 0:
+        if mc.GetMCParticleCount() > 0:
             if self._fv_radius:
                 return self.fv_cut_root(mc, ds)
             return True  # Passes particle count and no fid v cut
@@ -422,7 +422,7 @@ class EnergyExtractTruth(Extractor):
             if mc.GetMCParticle(0).GetPosition().Mag() < self._fv_radius:
                 return True  # Passes fiducial volume cut
             return False  # Fails fiducial volume cut
-        if ds.GetEVCount == 0:
+        if ds.GetEVCount() == 0:
             return False  # Failed reconstruction
         # Reco cut on MC value requires 1 ev else which position to use?
         if ds.GetEVCount() != 1:
@@ -444,9 +444,9 @@ class EnergyExtractTruth(Extractor):
           bool: Validity boolean
         '''
         if self._external:
-            if ds.GetEVCount == 0:
+            if ds.GetEVCount() == 0:
                 return False  # Failed reconstruction
-        if mc.GetMCParticleCount > 0:
+        if mc.GetMCParticleCount() > 0:
             if self._fv_radius:
                 return self.fv_cut_root(mc, ds)
             return True  # Passes particle count and no fid v cut
@@ -566,7 +566,7 @@ class RadialExtractMC(Extractor):
             if mc.GetMCParticle(0).GetPosition().Mag() < self._fv_radius:
                 return True  # Passes fiducial volume cut
             return False  # Fails fiducial volume cut
-        if ds.GetEVCount == 0:
+        if ds.GetEVCount() == 0:
             return False  # Failed reconstruction
         # Reco cut on MC value requires 1 ev else which position to use?
         if ds.GetEVCount() != 1:
@@ -587,7 +587,7 @@ class RadialExtractMC(Extractor):
         Returns:
           bool: Validity boolean
         '''
-        if mc.GetMCParticleCount > 0:
+        if mc.GetMCParticleCount() > 0:
             if self._fv_radius:
                 return self.fv_cut_root(mc, ds)
             return True  # Passes particle count and no fid v cut
@@ -853,7 +853,7 @@ class Radial3ExtractMC(Extractor):
             if mc.GetMCParticle(0).GetPosition().Mag() < self._fv_radius:
                 return True  # Passes fiducial volume cut
             return False  # Fails fiducial volume cut
-        if ds.GetEVCount == 0:
+        if ds.GetEVCount() == 0:
             return False  # Failed reconstruction
         # Reco cut on MC value requires 1 ev else which position to use?
         if ds.GetEVCount() != 1:
@@ -874,7 +874,7 @@ class Radial3ExtractMC(Extractor):
         Returns:
           bool: Validity boolean
         '''
-        if mc.GetMCParticleCount > 0:
+        if mc.GetMCParticleCount() > 0:
             if self._fv_radius:
                 return self.fv_cut_root(mc, ds)
             return True  # Passes particle count and no fid v cut
@@ -1154,7 +1154,7 @@ class ZRadial3ExtractMC(Extractor):
             if mc.GetMCParticle(0).GetPosition().Mag() < self._fv_radius:
                 return True  # Passes fiducial volume cut
             return False  # Fails fiducial volume cut
-        if ds.GetEVCount == 0:
+        if ds.GetEVCount() == 0:
             return False  # Failed reconstruction
         # Reco cut on MC value requires 1 ev else which position to use?
         if ds.GetEVCount() != 1:
@@ -1175,7 +1175,7 @@ class ZRadial3ExtractMC(Extractor):
         Returns:
           bool: Validity boolean
         '''
-        if mc.GetMCParticleCount > 0:
+        if mc.GetMCParticleCount() > 0:
             if self._fv_radius:
                 return self.fv_cut_root(mc, ds)
             return True  # Passes particle count and no fid v cut
-- 
2.43.0


From 7d9e3ffcafe3f95c7958d52ca5cd81d0547af430 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:49:45 +0000
Subject: [PATCH 66/95] fix: reconstructed position cut fails on an ev without
 a fit

---
 echidna/core/dsextract.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/echidna/core/dsextract.py b/echidna/core/dsextract.py
index d328180..7af9e63 100644
--- a/echidna/core/dsextract.py
+++ b/echidna/core/dsextract.py
@@ -154,6 +154,8 @@ class EnergyExtractMC(Extractor):
         if ds.GetEVCount() != 1:
             raise ValueError("Can only mix cuts for 1 mc = 1 ev")
         ev = ds.GetEV(0)
+        if not ev.DefaultFitVertexExists():
+            return False  # Failed reconstruction
         if ev.GetDefaultFitVertex().GetPosition().Mag() < \
                 self._fv_radius:
             return True  # Passes fiducial volume cut
@@ -428,6 +430,8 @@ class EnergyExtractTruth(Extractor):
         if ds.GetEVCount() != 1:
             raise ValueError("Can only mix cuts for 1 mc = 1 ev")
         ev = ds.GetEV(0)
+        if not ev.DefaultFitVertexExists():
+            return False  # Failed reconstruction
         if ev.GetDefaultFitVertex().GetPosition().Mag() < \
                 self._fv_radius:
             return True  # Passes fiducial volume cut
@@ -572,6 +576,8 @@ class RadialExtractMC(Extractor):
         if ds.GetEVCount() != 1:
             raise ValueError("Can only mix cuts for 1 mc = 1 ev")
         ev = ds.GetEV(0)
+        if not ev.DefaultFitVertexExists():
+            return False  # Failed reconstruction
         if ev.GetDefaultFitVertex().GetPosition().Mag() < \
                 self._fv_radius:
             return True  # Passes fiducial volume cut
@@ -859,6 +865,8 @@ class Radial3ExtractMC(Extractor):
         if ds.GetEVCount() != 1:
             raise ValueError("Can only mix cuts for 1 mc = 1 ev")
         ev = ds.GetEV(0)
+        if not ev.DefaultFitVertexExists():
+            return False  # Failed reconstruction
         if ev.GetDefaultFitVertex().GetPosition().Mag() < \
                 self._fv_radius:
             return True  # Passes fiducial volume cut
@@ -1160,6 +1168,8 @@ class ZRadial3ExtractMC(Extractor):
         if ds.GetEVCount() != 1:
             raise ValueError("Can only mix cuts for 1 mc = 1 ev")
         ev = ds.GetEV(0)
+        if not ev.DefaultFitVertexExists():
+            return False  # Failed reconstruction
         if ev.GetDefaultFitVertex().GetPosition().Mag() < \
                 self._fv_radius:
             return True  # Passes fiducial volume cut
-- 
2.43.0


From 88ab795dd9a24ff1eab032cf1c84f0797a50b837 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:49:45 +0000
Subject: [PATCH 67/95] fix: radial3 and zradial3 of an ev depend on its energy
 being valid

As for radial_reco, its position has to be.
---
 echidna/core/dsextract.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/echidna/core/dsextract.py b/echidna/core/dsextract.py
index 7af9e63..7442b88 100644
--- a/echidna/core/dsextract.py
+++ b/echidna/core/dsextract.py
@@ -1031,8 +1031,8 @@ class Radial3ExtractReco(Extractor):
           bool: Validity boolean
         '''
         if ev.DefaultFitVertexExists() and \
-                ev.GetDefaultFitVertex().ContainsEnergy() \
-                and ev.GetDefaultFitVertex().ValidEnergy():
+                ev.GetDefaultFitVertex().ContainsPosition() \
+                and ev.GetDefaultFitVertex().ValidPosition():
             if self._fv_radius:
                 return self.fv_cut_root(ev, ds)
             return True  # Passes fit checks and no fid v cut
@@ -1347,8 +1347,8 @@ class ZRadial3ExtractReco(Extractor):
           bool: Validity boolean
         '''
         if ev.DefaultFitVertexExists() and \
-                ev.GetDefaultFitVertex().ContainsEnergy() \
-                and ev.GetDefaultFitVertex().ValidEnergy():
+                ev.GetDefaultFitVertex().ContainsPosition() \
+                and ev.GetDefaultFitVertex().ValidPosition():
             if self._fv_radius:
                 return self.fv_cut_root(ev, ds)
             return True  # Passes fit checks and no fid v cut
-- 
2.43.0


From 8d8322a805648f5892b3a227a8d078ad198e0bdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:49:45 +0000
Subject: [PATCH 68/95] fix: ntuples that cannot be opened are silently left
 out

---
 echidna/core/fill_spectrum.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/echidna/core/fill_spectrum.py b/echidna/core/fill_spectrum.py
index aba566d..56ba0ba 100644
--- a/echidna/core/fill_spectrum.py
+++ b/echidna/core/fill_spectrum.py
@@ -261,13 +261,17 @@ def fill_from_ntuple(filename, spectrum_name="", config=None, spectrum=None,
       kwargs (dict): Passed to and checked by the dsextractor.
 
     Raises:
+      IOError: If the ntuple cannot be opened.
       ValueError: If spectrum_name is not set when creating a new
         spectrum.
     Returns:
       :class:`echidna.core.spectra.Spectra`: The filled spectrum.
     """
     chain = TChain("output")
-    chain.Add(filename)
+    # Without a number of entries the file is only opened later on, and one
+    # that cannot be opened is left out
+    if not chain.Add(filename, 0):
+        raise IOError("Cannot read ntuple %s" % filename)
     if type(config) == str:
         config = SpectraConfig.load_from_file(config)
     if spectrum is None:
-- 
2.43.0


From d2cd4d7640e59a144f0894252079de7b9551e26e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:50:05 +0000
Subject: [PATCH 69/95] fix: file that cannot be read is partly added to the
 spectrum

Decays of the whole file were counted even if the call was refused.
---
 echidna/core/fill_spectrum.py | 41 ++++++++++++++++++++++++++++++++---
 1 file changed, 38 insertions(+), 3 deletions(-)

diff --git a/echidna/core/fill_spectrum.py b/echidna/core/fill_spectrum.py
index 56ba0ba..c573989 100644
--- a/echidna/core/fill_spectrum.py
+++ b/echidna/core/fill_spectrum.py
@@ -12,6 +12,24 @@ from echidna.core.config import SpectraConfig
 import echidna.core.dsextract as dsextract
 
 
+def _append(spectrum, filled):
+    """ Adds a spectrum that was filled from one file to the spectrum that is
+    being appended.
+
+    Args:
+      spectrum (:class:`spectra.Spectra`): The spectrum which is being
+        appended.
+      filled (:class:`spectra.Spectra`): The spectrum filled from the file.
+
+    Returns:
+      :class:`spectra.Spectra`: The appended spectrum.
+    """
+    spectrum.add(filled)
+    if filled._bipo:
+        spectrum._bipo = 1
+    return spectrum
+
+
 def _bipo_ntuple(spectrum, chain, extractors):
     """ Because ROOT is crap, we have to loop through the entries first
       before using the LoadTree() method required for the bipo checks.
@@ -209,6 +227,7 @@ def fill_from_root(filename, spectrum_name="", config=None, spectrum=None,
     if type(config) == str:
         config = SpectraConfig.load_from_file(config)
     dsreader = RAT.DU.DSReader(filename)
+    appended = None
     if spectrum is None:
         if spectrum_name == "" or not config:
             raise ValueError("Name not set when creating new spectra.")
@@ -216,8 +235,12 @@ def fill_from_root(filename, spectrum_name="", config=None, spectrum=None,
                                    dsreader.GetEntryCount(),
                                    config)
     else:
-        spectrum._num_decays += dsreader.GetEntryCount()
+        # Fill apart and add at the end, so that a file that cannot be read
+        # leaves the spectrum as it was
+        appended = spectrum
         spectrum_name = spectrum._name
+        spectrum = spectra.Spectra(spectrum_name, dsreader.GetEntryCount(),
+                                   spectrum.get_config())
     print "Filling", spectrum_name, "with", filename
     extractors = {}
     mc_fill = False
@@ -239,6 +262,8 @@ def fill_from_root(filename, spectrum_name="", config=None, spectrum=None,
         _root_mc(spectrum, dsreader, extractors, bipo)
     else:
         _root_ev(spectrum, dsreader, extractors, bipo)
+    if appended is not None:
+        return _append(appended, spectrum)
     return spectrum
 
 
@@ -274,21 +299,29 @@ def fill_from_ntuple(filename, spectrum_name="", config=None, spectrum=None,
         raise IOError("Cannot read ntuple %s" % filename)
     if type(config) == str:
         config = SpectraConfig.load_from_file(config)
+    appended = None
     if spectrum is None:
         if spectrum_name == "" or not config:
             raise ValueError("Name not set when creating new spectra.")
         spectrum = spectra.Spectra(str(spectrum_name), chain.GetEntries(),
                                    config)
     else:
-        spectrum._num_decays += chain.GetEntries()
+        # Fill apart and add at the end, so that a file that cannot be read
+        # leaves the spectrum as it was
+        appended = spectrum
         spectrum_name = spectrum._name
+        spectrum = spectra.Spectra(spectrum_name, chain.GetEntries(),
+                                   spectrum.get_config())
     print "Filling", spectrum_name, "with", filename
     extractors = []
     for var in spectrum.get_config().get_pars():
         extractors.append(dsextract.function_factory(var, **kwargs))
     if bipo:
         spectrum._bipo = 1  # Flag to indicate bipo cuts are applied
-        return _bipo_ntuple(spectrum, chain, extractors)
+        _bipo_ntuple(spectrum, chain, extractors)
+        if appended is not None:
+            return _append(appended, spectrum)
+        return spectrum
     # No bipo so use standard loop:
     for entry in chain:
         fill = True
@@ -307,4 +340,6 @@ def fill_from_ntuple(filename, spectrum_name="", config=None, spectrum=None,
                 spectrum._raw_events += 1
             except ValueError:
                 pass
+    if appended is not None:
+        return _append(appended, spectrum)
     return spectrum
-- 
2.43.0


From 3ec2ce1ee05e0d278d4f020e0a10b3603cb4915f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:59:50 +0000
Subject: [PATCH 70/95] fix: dump_spectra_root stops before dumping the
 spectrum

SpectraConfig has get_pars, not getpars.
---
 echidna/scripts/dump_spectra_root.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/echidna/scripts/dump_spectra_root.py b/echidna/scripts/dump_spectra_root.py
index df93f5e..6b5a0a4 100644
--- a/echidna/scripts/dump_spectra_root.py
+++ b/echidna/scripts/dump_spectra_root.py
@@ -66,7 +66,7 @@ def plot_spectrum(spec, config):
         be plotted
       config (:class:`SpectraConfig`): configuration object
     """
-    for v in config.getpars():
+    for v in config.get_pars():
         plot.plot_projection(spec, v)
 
 
-- 
2.43.0


From 3534adb977ae9b9ecaf1aeddf577b5a0e10ab516 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:59:50 +0000
Subject: [PATCH 71/95] fix: lists of files cannot be dumped (option -r)

read_tab_delim_file returned rows, not paths, and dump_spectra_ntuple
took the list of rows for a pair of lists.
---
 echidna/scripts/dump_spectra_ntuple.py | 9 +++++----
 echidna/scripts/dump_spectra_root.py   | 5 +++--
 2 files changed, 8 insertions(+), 6 deletions(-)

diff --git a/echidna/scripts/dump_spectra_ntuple.py b/echidna/scripts/dump_spectra_ntuple.py
index eabc8c6..2c19d6a 100644
--- a/echidna/scripts/dump_spectra_ntuple.py
+++ b/echidna/scripts/dump_spectra_ntuple.py
@@ -88,8 +88,9 @@ def read_tab_delim_file(fname):
     with open(fname, 'r') as f:
         # next(f) # skip headings
         reader = csv.reader(f, delimiter='\t')
-        for path in reader:
-            file_paths.append(path)
+        for row in reader:
+            if row:  # skip empty lines
+                file_paths.append(row[0])
     return file_paths
 
 
@@ -116,8 +117,8 @@ if __name__ == "__main__":
     args = parser.parse_args()
 
     if args.read_text_file:  # If passed text file: read, format and dump
-        path_list, half_life_list = read_tab_delim_file(args.read_text_file)
-        for fname, half_life in zip(path_list, half_life_list):
+        path_list = read_tab_delim_file(args.read_text_file)
+        for fname in path_list:
             spectrum_name = fname[fname.rfind('/', 0, -1)+1:]
             read_and_dump_ntuple(fname, args.config, spectrum_name,
                                  args.save_path, args.bipo, args.fv_radius,
diff --git a/echidna/scripts/dump_spectra_root.py b/echidna/scripts/dump_spectra_root.py
index 6b5a0a4..809f5d1 100644
--- a/echidna/scripts/dump_spectra_root.py
+++ b/echidna/scripts/dump_spectra_root.py
@@ -83,8 +83,9 @@ def read_tab_delim_file(fname):
     with open(fname, 'r') as f:
         # next(f) # skip headings
         reader = csv.reader(f, delimiter='\t')
-        for path in reader:
-            file_paths.append(path)
+        for row in reader:
+            if row:  # skip empty lines
+                file_paths.append(row[0])
     return file_paths
 
 
-- 
2.43.0


From c5d9bcd52351bfc3ae8b664df51fb96c40bae858 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:59:50 +0000
Subject: [PATCH 72/95] fix: scaled and shrunk spectra from the current
 directory go to /

A path without a directory part gave the output directory "/".
---
 echidna/scripts/dump_scaled.py | 2 +-
 echidna/scripts/dump_shrink.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/echidna/scripts/dump_scaled.py b/echidna/scripts/dump_scaled.py
index 8528b1b..c396d6a 100644
--- a/echidna/scripts/dump_scaled.py
+++ b/echidna/scripts/dump_scaled.py
@@ -55,7 +55,7 @@ def main(args):
         else:
             raise ValueError("%s does not exist." % args.dest)
     else:
-        directory = os.path.dirname(args.file) + "/"
+        directory = os.path.join(os.path.dirname(args.file), "")
     filename = os.path.splitext(os.path.basename(args.file))[0]
     scaler = scale.Scale()
     scaler.set_scale_factor(args.scale)
diff --git a/echidna/scripts/dump_shrink.py b/echidna/scripts/dump_shrink.py
index a111746..9cff55e 100644
--- a/echidna/scripts/dump_shrink.py
+++ b/echidna/scripts/dump_shrink.py
@@ -75,7 +75,7 @@ def main(args):
     if not f_out:
         directory = os.path.dirname(args.input)
         filename = os.path.splitext(os.path.basename(args.input))[0]
-        f_out = directory + "/" + filename + "_shrunk.hdf5"
+        f_out = os.path.join(directory, filename + "_shrunk.hdf5")
     store.dump(f_out, spectrum)
     _logger.info("Shrunk "+str(args.input)+", saved to "+str(f_out))
 
-- 
2.43.0


From b71b4de71f39e8698ba9431a74f1837c2e1ca827 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:59:50 +0000
Subject: [PATCH 73/95] fix: multi_ntuple_spectrum joins save path and name
 without a slash

With "-s /data/out" the spectrum went to /data/out<name>.hdf5.
---
 echidna/scripts/multi_ntuple_spectrum.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/echidna/scripts/multi_ntuple_spectrum.py b/echidna/scripts/multi_ntuple_spectrum.py
index 2c9366b..0050410 100644
--- a/echidna/scripts/multi_ntuple_spectrum.py
+++ b/echidna/scripts/multi_ntuple_spectrum.py
@@ -75,7 +75,7 @@ def create_combined_ntuple_spectrum(data_path, config_path, bkgnd_name,
     # Plot
     plot_spectrum(spec, config)
     # Dump to file
-    store.dump("%s%s.hdf5" % (save_path, bkgnd_name), spec)
+    store.dump(os.path.join(save_path, "%s.hdf5" % bkgnd_name), spec)
 
 
 def plot_spectrum(spec, config):
-- 
2.43.0


From 7a1e67a05d729e30b754a4bff0891d36b72a6fce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:59:50 +0000
Subject: [PATCH 74/95] fix: multi_ntuple_spectrum cuts the last letter of the
 default name

The default name is the name of the directory of the ntuples; only with
a trailing slash in the path was it that.
---
 echidna/scripts/multi_ntuple_spectrum.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/echidna/scripts/multi_ntuple_spectrum.py b/echidna/scripts/multi_ntuple_spectrum.py
index 0050410..53adb3b 100644
--- a/echidna/scripts/multi_ntuple_spectrum.py
+++ b/echidna/scripts/multi_ntuple_spectrum.py
@@ -121,7 +121,7 @@ if __name__ == "__main__":
     if args.bkgnd_name:
         bkgnd_name = args.bkgnd_name
     else:
-        bkgnd_name = data_path[data_path.rfind('/', 0, -2)+1:-1]
+        bkgnd_name = os.path.basename(os.path.normpath(data_path))
 
     ##########################################################################
     # Set path to folder created when grabbing ntuples from grid.
-- 
2.43.0


From 5df7ccb91ccb696e70db9a9d7ea66281628b0618 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:58:33 +0000
Subject: [PATCH 75/95] fix: set_par changes nothing if one of the names is
 unknown

---
 echidna/core/parameter.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/echidna/core/parameter.py b/echidna/core/parameter.py
index f55b1f4..80c6e9c 100644
--- a/echidna/core/parameter.py
+++ b/echidna/core/parameter.py
@@ -561,6 +561,11 @@ class FitParameter(Parameter):
         Raises:
           TypeError: Unknown variable type passed as a kwarg.
         """
+        for kw in kwargs:  # Check all, before updating any
+            if kw not in ("prior", "sigma", "low", "high", "bins",
+                          "logscale", "base", "logscale_deviation",
+                          "dimension"):
+                raise TypeError("Unhandled parameter name / type %s" % kw)
         self._logger.warning("Setting _values and _bin_boundaries to None")
         self._values = None
         self._bin_boundaries = None
@@ -1170,6 +1175,9 @@ class SpectraParameter(Parameter):
         Raises:
           TypeError: Unknown variable type passed as a kwarg.
         """
+        for kw in kwargs:  # Check all, before updating any
+            if kw not in ("low", "high", "bins"):
+                raise TypeError("Unhandled parameter name / type %s" % kw)
         for kw in kwargs:
             if kw == "low":
                 self._low = float(kwargs[kw])
-- 
2.43.0


From 55c4319fb7e60a61579c8d78e4b4e67e0b43d491 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:58:33 +0000
Subject: [PATCH 76/95] fix: append_fixed_background adds no spectrum if one is
 refused

---
 echidna/fit/fit.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/echidna/fit/fit.py b/echidna/fit/fit.py
index f288dd8..e322d1e 100644
--- a/echidna/fit/fit.py
+++ b/echidna/fit/fit.py
@@ -158,6 +158,7 @@ class Fit(object):
           shrink (bool, optional): If set to True (default), :meth:`shrink`
             method is called on the spectra shrinking it to the ROI.
         '''
+        total_spectrum = None  # Add all or, if one does not fit, none
         for spectrum, scaling in spectra_dict.iteritems():
             # Copy so original spectra is unchanged
             spectrum = copy.copy(spectrum)
@@ -165,7 +166,12 @@ class Fit(object):
             if shrink:
                 self.shrink_spectra(spectrum)
             spectrum.scale(scaling)
-            self._fixed_background.add(spectrum)
+            if total_spectrum is None:
+                total_spectrum = spectrum
+            else:
+                total_spectrum.add(spectrum)
+        if total_spectrum is not None:
+            self._fixed_background.add(total_spectrum)
 
     def check_all_spectra(self):
         """ Ensures that all spectra can be used for fitting.
-- 
2.43.0


From 7e3fed6dcf339230957aa4dab14e3aa40d90370c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:58:33 +0000
Subject: [PATCH 77/95] fix: refused floating backgrounds leave the fit config
 as it was

---
 echidna/fit/fit.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/echidna/fit/fit.py b/echidna/fit/fit.py
index e322d1e..7b4ba0f 100644
--- a/echidna/fit/fit.py
+++ b/echidna/fit/fit.py
@@ -737,13 +737,15 @@ class Fit(object):
                                "_floating_backgrounds" % background.get_name())
             if background.get_fit_config():
                 self.check_fit_config(background)
-                # Spectrum has a valid fit config, add to GlobalFit Config
-                self._fit_config.add_config(background.get_fit_config())
             if shrink:
                 self.shrink_spectra(background)
             else:
                 self.check_spectra(background)
             floating_pars.append(self.get_roi_pars(background))
+        for background in floating_backgrounds:
+            if background.get_fit_config():
+                # Spectrum has a valid fit config, add to GlobalFit Config
+                self._fit_config.add_config(background.get_fit_config())
         # Forget convolved spectra of any previous backgrounds
         self._global_dict = {}
         self._floating_backgrounds = floating_backgrounds
-- 
2.43.0


From b6ef2cefcd4cffed4acd62732b29045f6228d550 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:58:33 +0000
Subject: [PATCH 78/95] fix: DBIsotope takes a loading of 0 and refuses an
 outer radius of 0

---
 echidna/calc/decay.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/echidna/calc/decay.py b/echidna/calc/decay.py
index 5a4b045..4e5e051 100644
--- a/echidna/calc/decay.py
+++ b/echidna/calc/decay.py
@@ -62,14 +62,14 @@ class DBIsotope(object):
         self._abundance = abundance
         self._phase_space = phase_space
         self._matrix_element = matrix_element
-        if loading:
+        if loading is not None:
             if loading < 0. or loading > 1.:
                 raise ValueError("Loading ranges from 0 to 1")
             self._loading = loading
         else:
             # Default SNO+ Loading
             self._loading = const._loading
-        if outer_radius:
+        if outer_radius is not None:
             if outer_radius <= 0.:
                 raise ValueError("Outer radius must be positive and non-zero")
             self._outer_radius = outer_radius
-- 
2.43.0


From 14d9f98694e14c951d99f4897b3d31bf1f016301 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:58:33 +0000
Subject: [PATCH 79/95] fix: nd_project_stat and nd_project_stats always raise
 NameError

---
 echidna/fit/minimise.py | 39 +++++++++++++++++++--------------------
 1 file changed, 19 insertions(+), 20 deletions(-)

diff --git a/echidna/fit/minimise.py b/echidna/fit/minimise.py
index 38dc42e..73d9af1 100644
--- a/echidna/fit/minimise.py
+++ b/echidna/fit/minimise.py
@@ -6,6 +6,7 @@ from echidna.fit.fit_results import FitResults
 
 import copy
 import abc
+import itertools
 
 
 class Minimiser(object):
@@ -396,19 +397,18 @@ class GridSearch(FitResults, Minimiser):
                     self._fit_config.get_pars(),
                     self._spectra_config.get_pars()):
                 raise IndexError("Unknown parameter %s" % parameter)
-        if parameters in self._fit_config.get_pars():
+        if all(parameter in self._fit_config.get_pars()
+               for parameter in parameters):
             # Can apply penalty term contributions
             projection = self.get_stat(indices)
-            for axis, parameter in self._fit_config.get_pars():
-                if parameter not in parameters:
-                    projection = numpy.sum(projection, axis=axis)
         else:  # No penalty terms, use raw stats
             projection = copy.copy(self.get_raw_stat(indices))
-            for axis, parameter in enumerate(
-                    itertools.chain(self._fit_config.get_pars(),
-                                    self._spectra_config.get_pars())):
+            counter = 0
+            # Only the spectral axes are left at the given indices
+            for axis, parameter in enumerate(self._spectra_config.get_pars()):
                 if parameter not in parameters:
-                    projection = numpy.sum(projection, axis=axis)
+                    projection = numpy.sum(projection, axis=(axis-counter))
+                    counter = counter + 1  # compensate for earlier sums
         return projection
 
     def nd_project_stats(self, *parameters):
@@ -438,21 +438,20 @@ class GridSearch(FitResults, Minimiser):
                     self._fit_config.get_pars(),
                     self._spectra_config.get_pars()):
                 raise IndexError("Unknown parameter %s" % parameter)
-        if parameters in self._fit_config.get_pars():
+        if all(parameter in self._fit_config.get_pars()
+               for parameter in parameters):
             # Can apply penalty term contributions
             projection = self.get_stats()
-            for axis, parameter in self._fit_config.get_pars():
-                if parameter not in parameters:
-                    projection = numpy.sum(projection, axis=axis)
+            axes = list(self._fit_config.get_pars())
         else:  # No penalty terms, use raw stats
-            projection = copy.copy(self.get_raw_stats())
-            counter = 0
-            for axis, parameter in enumerate(
-                    itertools.chain(self._fit_config.get_pars(),
-                                    self._spectra_config.get_pars())):
-                if parameter not in parameters:
-                    projection = numpy.sum(projection, axis=(axis-counter))
-                    counter = counter + 1  # compensate for earlier sums
+            projection = copy.copy(self._stats)
+            axes = list(itertools.chain(self._fit_config.get_pars(),
+                                        self._spectra_config.get_pars()))
+        counter = 0
+        for axis, parameter in enumerate(axes):
+            if parameter not in parameters:
+                projection = numpy.sum(projection, axis=(axis-counter))
+                counter = counter + 1  # compensate for earlier sums
         return projection
 
     def reset_grids(self):
-- 
2.43.0


From 84e5731ae61b06be69a29a0a3eb98f4dfaa7ffde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:58:33 +0000
Subject: [PATCH 80/95] fix: get_raw_stats_at raises IndexError if there is one
 value

---
 echidna/fit/minimise.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/echidna/fit/minimise.py b/echidna/fit/minimise.py
index 73d9af1..9a0706b 100644
--- a/echidna/fit/minimise.py
+++ b/echidna/fit/minimise.py
@@ -216,12 +216,12 @@ class GridSearch(FitResults, Minimiser):
             par = self._fit_config.get_par(par_name)
             bins.append(par.get_bin(kwargs[par_name]))
         stats = copy.copy(self._stats[tuple(bins)])
-        while stats.shape[0] == 1:
+        while stats.shape and stats.shape[0] == 1:
             stats = stats.sum(0)
-        if type(stats) is float:
-            return stats
-        while stats.shape[-1] == 1:
+        while stats.shape and stats.shape[-1] == 1:
             stats = stats.sum(-1)
+        if not stats.shape:
+            return float(stats)
         return stats
 
     def get_resets(self):
-- 
2.43.0


From be70541c43f3ec932e61e22c7f05fc1749e11b11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:52:22 +0000
Subject: [PATCH 81/95] fix: interrupted dump_ndarray leaves a file that loads
 in part

---
 echidna/output/store.py | 35 ++++++++++++++++++++++-------------
 1 file changed, 22 insertions(+), 13 deletions(-)

diff --git a/echidna/output/store.py b/echidna/output/store.py
index aee48ab..db2f38d 100644
--- a/echidna/output/store.py
+++ b/echidna/output/store.py
@@ -9,6 +9,7 @@ from echidna.fit.minimise import GridSearch
 from collections import OrderedDict
 import logging
 import h5py
+import os
 import sys
 import collections
 import json
@@ -137,19 +138,27 @@ def dump_ndarray(file_path, ndarray_object):
       AttributeError: If attribute in not an ndarray and is larger than
         64k - h5py limit for attribute sizes.
     """
-    with h5py.File(file_path, "w") as file_:
-        for attr_name, attribute in ndarray_object.__dict__.iteritems():
-            if attribute is None:  # Can't save to hdf5, skip --> continue
-                continue
-            elif type(attribute).__name__ == "ndarray":
-                file_.create_dataset(attr_name, data=attribute,
-                                     compression="gzip")
-            elif sys.getsizeof(attribute) < 65536:  # 64k
-                file_.attrs[attr_name] = attribute
-            else:
-                raise AttributeError("attribute " + str(attr_name) + " is not "
-                                     "an 'ndarray' and is too large to be "
-                                     "saved as an h5py attribute.")
+    # load_ndarray skips what is not there, so the file has to be complete
+    temp_path = "%s.%d.tmp" % (file_path, os.getpid())
+    try:
+        with h5py.File(temp_path, "w") as file_:
+            for attr_name, attribute in ndarray_object.__dict__.iteritems():
+                if attribute is None:  # Can't save to hdf5, skip --> continue
+                    continue
+                elif type(attribute).__name__ == "ndarray":
+                    file_.create_dataset(attr_name, data=attribute,
+                                         compression="gzip")
+                elif sys.getsizeof(attribute) < 65536:  # 64k
+                    file_.attrs[attr_name] = attribute
+                else:
+                    raise AttributeError("attribute " + str(attr_name) +
+                                         " is not an 'ndarray' and is too "
+                                         "large to be saved as an h5py "
+                                         "attribute.")
+        os.rename(temp_path, file_path)
+    finally:
+        if os.path.exists(temp_path):
+            os.remove(temp_path)
     _logger.info("Saved %s to %s" % (str(ndarray_object), file_path))
 
 
-- 
2.43.0


From 42d1c713fd53f362841f16b7b5684fa17e306472 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:52:22 +0000
Subject: [PATCH 82/95] fix: load_ndarray that fails leaves the object half
 loaded

---
 echidna/output/store.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/echidna/output/store.py b/echidna/output/store.py
index db2f38d..ae7d5a2 100644
--- a/echidna/output/store.py
+++ b/echidna/output/store.py
@@ -368,17 +368,21 @@ def load_ndarray(file_path, ndarray_object):
       array_object (object): Any class instance mainly consisting of
         numpy array(s).
     """
+    loaded = {}
     with h5py.File(file_path, "r") as file_:
         for attr_name, attribute in ndarray_object.__dict__.iteritems():
             try:
                 if type(attribute).__name__ == "ndarray":
-                    setattr(ndarray_object, attr_name, file_[attr_name].value)
+                    loaded[attr_name] = file_[attr_name].value
                 else:
-                    setattr(ndarray_object, attr_name, file_.attrs[attr_name])
+                    loaded[attr_name] = file_.attrs[attr_name]
             except KeyError as detail:  # unable to locate attribute, skip
                 _logger.warning("Handling run-time error: %s" % detail)
                 logging.getLogger("extra").warning(" --> skipping")
                 continue
+    # Only change the object once everything has been read
+    for attr_name, attribute in loaded.iteritems():
+        setattr(ndarray_object, attr_name, attribute)
     _logger.info("Loaded object %s" % str(ndarray_object))
     return ndarray_object
 
-- 
2.43.0


From d8f1443c640504765111fe74ada978cb762649e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:23:01 +0000
Subject: [PATCH 83/95] fix: spectra of one background share their convolved
 spectra in a fit

---
 echidna/fit/fit.py | 29 ++++++++++++++---------------
 1 file changed, 14 insertions(+), 15 deletions(-)

diff --git a/echidna/fit/fit.py b/echidna/fit/fit.py
index 7b4ba0f..9806d85 100644
--- a/echidna/fit/fit.py
+++ b/echidna/fit/fit.py
@@ -496,14 +496,14 @@ class Fit(object):
         cur_val = ""
         for parameter in global_pars:
             cur_val += parameter._name + str(parameter._current_value) + "_"
-        for spectrum, floating_pars in zip(self._floating_backgrounds,
-                                           self._floating_pars):
+        for index, (spectrum, floating_pars) in enumerate(
+                zip(self._floating_backgrounds, self._floating_pars)):
             # Apply global parameters first
             if global_pars:
-                background_name = spectrum.get_background_name()
-                if background_name not in self._global_dict:
-                    self._global_dict[background_name] = {}
-                if cur_val not in self._global_dict[background_name]:
+                # Not by name: spectra of one background can share it
+                if index not in self._global_dict:
+                    self._global_dict[index] = {}
+                if cur_val not in self._global_dict[index]:
                     fit_config = spectrum._fit_config
                     if self._use_pre_made:  # Load pre-made spectrum from file
                         spectrum = self.load_pre_made(spectrum, global_pars)
@@ -511,9 +511,9 @@ class Fit(object):
                         for parameter in global_pars:
                             spectrum = parameter.apply_to(spectrum)
                     spectrum._fit_config = fit_config
-                    self._global_dict[background_name][cur_val] = spectrum
+                    self._global_dict[index][cur_val] = spectrum
                 else:
-                    spectrum = self._global_dict[background_name][cur_val]
+                    spectrum = self._global_dict[index][cur_val]
 
             # Apply spectrum-specific parameters
             if spectrum._fit_config:
@@ -536,10 +536,9 @@ class Fit(object):
         if self._signal:
             if global_pars:
                 num_decays = self._signal._num_decays
-                background_name = self._signal.get_background_name()
-                if background_name not in self._global_dict:
-                    self._global_dict[background_name] = {}
-                if cur_val not in self._global_dict[background_name]:
+                if "signal" not in self._global_dict:
+                    self._global_dict["signal"] = {}
+                if cur_val not in self._global_dict["signal"]:
                     fit_config = self._signal._fit_config
                     if self._use_pre_made:  # Load pre-made spectrum from file
                         signal = self.load_pre_made(self._signal,
@@ -549,9 +548,9 @@ class Fit(object):
                         for parameter in global_pars:
                             signal = parameter.apply_to(signal)
                     signal._fit_config = fit_config
-                    self._global_dict[background_name][cur_val] = signal
+                    self._global_dict["signal"][cur_val] = signal
                 else:
-                    signal = self._global_dict[background_name][cur_val]
+                    signal = self._global_dict["signal"][cur_val]
                 self.shrink_to_data(signal)
                 signal.rebin(self._data._data.shape)
                 signal.scale(num_decays)
@@ -817,7 +816,7 @@ class Fit(object):
         self._signal = signal
         if self._floating_backgrounds and self._fit_config.get_global_pars():
             # Forget convolved spectra of any previous signal
-            self._global_dict.pop(signal.get_background_name(), None)
+            self._global_dict.pop("signal", None)
         self._logger.debug("Set _signal as Spectra with name %s" %
                            signal.get_name())
         self._signal_pars = self.get_roi_pars(signal)
-- 
2.43.0


From 70b343999cbcd0e55c8e78498db99fa500cc64dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:30:13 +0000
Subject: [PATCH 84/95] fix: axis of a plot can have one point more than the
 spectrum has bins

---
 echidna/output/plot.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/echidna/output/plot.py b/echidna/output/plot.py
index fe1f34e..390b52d 100644
--- a/echidna/output/plot.py
+++ b/echidna/output/plot.py
@@ -20,7 +20,7 @@ def _produce_axis(spectra, dimension):
     """
     par = spectra.get_config().get_par(dimension)
     width = par.get_width()
-    return numpy.arange(par._low, par._high, width) + 0.5*width
+    return par._low + (numpy.arange(par._bins) + 0.5)*width
 
 
 def _produce_bins(spectra, dimension):
-- 
2.43.0


From 74b13870e8daca1117cd60ab50aaa6a7c3a41e29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:30:13 +0000
Subject: [PATCH 85/95] fix: summed background of a plot leaves out types read
 from a file

---
 echidna/output/plot.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/echidna/output/plot.py b/echidna/output/plot.py
index 390b52d..c50609e 100644
--- a/echidna/output/plot.py
+++ b/echidna/output/plot.py
@@ -180,7 +180,7 @@ def spectral_plot(spectra_dict, dimension, fig_num=1, show_plot=True,
             color = None
         axis.hist(x, bins=bins, weights=data, histtype="step",
                   label=label, color=color, log=log_y)
-        if value.get("type") is "background":
+        if value.get("type") == "background":
             summed_background = summed_background + spectra.project(dimension)
         summed_total = summed_total + spectra.project(dimension)
     axis.hist(x, bins=bins, weights=summed_background,
-- 
2.43.0


From 34afd460538e9583cc6a5bbdc8bdd61588906f3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:30:13 +0000
Subject: [PATCH 86/95] fix: surface plot leaves out the last bin of each axis

---
 echidna/output/plot.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/echidna/output/plot.py b/echidna/output/plot.py
index c50609e..44d4c55 100644
--- a/echidna/output/plot.py
+++ b/echidna/output/plot.py
@@ -253,11 +253,11 @@ def plot_surface(spectra, dimension1, dimension2,
     index1 = spectra.get_config().get_index(dimension1)
     index2 = spectra.get_config().get_index(dimension2)
     if index1 < index2:
-        x = _produce_axis(spectra, dimension2)
-        y = _produce_axis(spectra, dimension1)
+        x = _produce_bins(spectra, dimension2)
+        y = _produce_bins(spectra, dimension1)
     else:
-        x = _produce_axis(spectra, dimension1)
-        y = _produce_axis(spectra, dimension2)
+        x = _produce_bins(spectra, dimension1)
+        y = _produce_bins(spectra, dimension2)
     data = spectra.surface(dimension1, dimension2)
     par1 = spectra.get_config().get_par(dimension1)
     par2 = spectra.get_config().get_par(dimension2)
-- 
2.43.0


From 306eaa5746cab7a93b0d3d289ae18011105478b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:30:13 +0000
Subject: [PATCH 87/95] fix: ROOT surface plot mixes up axes that are not in
 config order

---
 echidna/output/plot_root.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/echidna/output/plot_root.py b/echidna/output/plot_root.py
index 0969906..e9d4886 100644
--- a/echidna/output/plot_root.py
+++ b/echidna/output/plot_root.py
@@ -65,6 +65,9 @@ def plot_surface(spectra, dimension1, dimension2, graphical=True, h_name=None):
                      spectra.get_config().get_par(dimension2)._low,
                      spectra.get_config().get_par(dimension2)._high)
     data = spectra.surface(dimension1, dimension2)
+    if (spectra.get_config().get_index(dimension1) >
+            spectra.get_config().get_index(dimension2)):
+        data = data.T  # The surface has the order of the config
     for index_x, data_x in enumerate(data):
         for index_y, datum in enumerate(data_x):
             plot.SetBinContent(index_x + 1, index_y + 1, datum)
-- 
2.43.0


From 02b4d652ec8a7cabe9f6c7cc69e79e34b946744f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:30:13 +0000
Subject: [PATCH 88/95] fix: plotting best fits in sigma overwrites them in the
 limit results

---
 echidna/output/plot_root.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/echidna/output/plot_root.py b/echidna/output/plot_root.py
index e9d4886..c2e7aec 100644
--- a/echidna/output/plot_root.py
+++ b/echidna/output/plot_root.py
@@ -428,8 +428,7 @@ def plot_sigma_best_fit_vs_scale(limit_results, par, graphical=True):
     best_fits = limit_results.get_best_fits(par)
     prior = limit_results._fit_config.get_par(par).get_prior()
     sigma = limit_results._fit_config.get_par(par).get_sigma()
-    best_fits -= prior
-    best_fits /= sigma
+    best_fits = (best_fits - prior) / sigma  # Results keep theirs
     scales = limit_results.get_scales()
     g = ROOT.TGraph(len(scales), scales, best_fits)
     g.SetMarkerStyle(3)
-- 
2.43.0


From 20cbe19de76b9f07c254237c6bb79406178fd361 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:30:13 +0000
Subject: [PATCH 89/95] fix: plot_per_bin mixes up axes that are in config
 order

---
 echidna/output/plot_root.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/echidna/output/plot_root.py b/echidna/output/plot_root.py
index c2e7aec..f60a34d 100644
--- a/echidna/output/plot_root.py
+++ b/echidna/output/plot_root.py
@@ -473,7 +473,7 @@ def plot_per_bin(fit_results, min_chisq=True, graphical=True,
         x_par = fit_results._spectra_config.get_par(x_dim)
         y_par = fit_results._spectra_config.get_par(y_dim)
         idx_x = fit_results._spectra_config.get_index(x_dim)
-        idx_y = fit_results._spectra_config.get_index(x_dim)
+        idx_y = fit_results._spectra_config.get_index(y_dim)
         h = ROOT.TH2D("chi_sq" + strings.id_generator(),
                       ";" + x_dim + ";" + y_dim + ";#chi^{2}", x_par._bins,
                       x_par._low, x_par._high, y_par._bins, y_par._low,
-- 
2.43.0


From 8232e3f3bb6ec8165e8933b9e9c68dbf8ee29926 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:30:13 +0000
Subject: [PATCH 90/95] fix: ROOT spectral plot fails for every spectrum

---
 echidna/output/plot_root.py | 31 +++++++++++++++++++------------
 1 file changed, 19 insertions(+), 12 deletions(-)

diff --git a/echidna/output/plot_root.py b/echidna/output/plot_root.py
index f60a34d..9a3bfa7 100644
--- a/echidna/output/plot_root.py
+++ b/echidna/output/plot_root.py
@@ -135,44 +135,44 @@ def spectral_plot(spectra_dict, dimension="energy", show_plot=False,
             low = par._low
             high = par._high
             bins = par._bins
-            shape = (bins)  # Shape for summed arrays
             root_labels = "; %s (%s); Counts" % (dimension, par.get_unit())
             summed_background = ROOT.TH1F("summed_background", root_labels,
                                           bins, low, high)
             summed_total = ROOT.TH1F("summed_total", root_labels,
                                      bins, low, high)
-            summed_total = numpy.zeros(shape=shape)
             summed_background.SetLineStyle(7)
             summed_background.SetLineColor(ROOT.kRed)
             summed_total.SetLineStyle(7)
             summed_total.SetLineColor(ROOT.kBlack)
             leg.AddEntry(summed_total, "Background + Signal", "l")
             leg.AddEntry(summed_background, "Background", "l")
-            hist = spectra.project(dimension, graphical=False)
+            hist = plot_projection(spectra, dimension+"_"+dim_type,
+                                   graphical=False)
             hist.SetLineColor(value.get("style")["color"])
             leg.AddEntry(hist, value.get("label"), 'l')
             hists.append(hist)
-            if value.get("type") is "background":
+            if value.get("type") == "background":
                 summed_background.Add(hist)
             summed_total.Add(hist)
             first_spectra = False
         else:
-            dim_type = spectra.get_config().get_dim_type("energy")
-            par = spectra.get_config().get_par("energy_"+dim_type)
+            dim_type = spectra.get_config().get_dim_type(dimension)
+            par = spectra.get_config().get_par(dimension+"_"+dim_type)
             if par._low != low:
                 raise AssertionError("Spectra " + spectra._name + " has "
-                                     "incorrect energy lower limit")
+                                     "incorrect %s lower limit" % dimension)
             if par._high != high:
                 raise AssertionError("Spectra " + spectra._name + " has "
-                                     "incorrect energy upper limit")
+                                     "incorrect %s upper limit" % dimension)
             if par._bins != bins:
                 raise AssertionError("Spectra " + spectra._name + " has "
-                                     "incorrect energy upper limit")
-            hist = spectra.project(dimension, graphical=False)
+                                     "incorrect %s bins" % dimension)
+            hist = plot_projection(spectra, dimension+"_"+dim_type,
+                                   graphical=False)
             hist.SetLineColor(value.get("style")["color"])
             leg.AddEntry(hist, value.get("label"), 'l')
             hists.append(hist)
-            if value.get("type") is "background":
+            if value.get("type") == "background":
                 summed_background.Add(hist)
             summed_total.Add(hist)
     # Draw after making hists so they are drawn in the right order
@@ -183,10 +183,17 @@ def spectral_plot(spectra_dict, dimension="energy", show_plot=False,
 
     # Plot limit
     if limit:
-        hist = limit.project(dimension, graphical=False)
+        dim_type = limit.get_config().get_dim_type(dimension)
+        hist = plot_projection(limit, dimension+"_"+dim_type, graphical=False)
         hist.SetLineColor(ROOT.kGray)
         leg.AddEntry(hist, "Kamland-Zen Limit", "l")
+        hists.append(hist)
+        hist.Draw("same")
     leg.Draw("same")
+    # The canvas shows these for as long as they exist
+    can.drawn = hists + [summed_background, summed_total, leg]
+    if show_plot:
+        raw_input("Return to quit")
     return can
 
 
-- 
2.43.0


From 544be3340075c72d5701b66328d787216bc4101e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:23:55 +0000
Subject: [PATCH 91/95] fix: ROOT surface plot labels its axes with the wrong
 dimension

---
 echidna/output/plot_root.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/echidna/output/plot_root.py b/echidna/output/plot_root.py
index 9a3bfa7..edc62f2 100644
--- a/echidna/output/plot_root.py
+++ b/echidna/output/plot_root.py
@@ -57,7 +57,7 @@ def plot_surface(spectra, dimension1, dimension2, graphical=True, h_name=None):
     if not h_name:
         h_name = dimension1 + ":" + dimension2 + strings.id_generator()
     plot = ROOT.TH2D(h_name,
-                     "%s;%s;Count per bin" % (dimension1, dimension2),
+                     ";%s;%s;Count per bin" % (dimension1, dimension2),
                      spectra.get_config().get_par(dimension1)._bins,
                      spectra.get_config().get_par(dimension1)._low,
                      spectra.get_config().get_par(dimension1)._high,
-- 
2.43.0


From 6d8a68637d864b2078ef70bca6706ae488fbdb8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:35:05 +0000
Subject: [PATCH 92/95] fix: summary of a limit shows the fit at another scale

---
 echidna/limit/limit.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/echidna/limit/limit.py b/echidna/limit/limit.py
index 6996489..e688039 100644
--- a/echidna/limit/limit.py
+++ b/echidna/limit/limit.py
@@ -218,6 +218,7 @@ class Limit(object):
             log_text = ""
             i_limit = numpy.where(stats[min_bin:] > limit)[0][0]
             limit = par.get_values()[min_bin + i_limit]
+            i_limit += min_bin  # Index of the limit in the full arrays
             log_text += "\n===== Limit Summary =====\nLimit found at:\n"
             log_text += "Signal Decays: %.4g\n" % limit
             for parameter in self._fitter.get_fit_config().get_pars():
@@ -258,6 +259,7 @@ class Limit(object):
             log_text = ""
             i_limit = numpy.argmax(stats[min_bin:])
             max_scale = par.get_values()[min_bin + i_limit]
+            i_limit += min_bin  # Index of the maximum in the full arrays
             log_text += "\n===== Limit Summary =====\nNo limit found:\n"
             log_text += "Signal Decays (at max stat): %.4g\n" % max_scale
             for parameter in self._fitter.get_fit_config().get_pars():
-- 
2.43.0


From 666407c6cf3d963a35a02085763400e4b035f057 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:45:10 +0000
Subject: [PATCH 93/95] fix: rebin that runs out of memory leaves axes that do
 not fit the contents

---
 echidna/core/spectra.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/echidna/core/spectra.py b/echidna/core/spectra.py
index f6a78e9..0d81940 100644
--- a/echidna/core/spectra.py
+++ b/echidna/core/spectra.py
@@ -371,15 +371,17 @@ class Spectra(object):
                                  % (self._config.get_par(v)._bins,
                                     new_bins[i], v))
         # Now do the rebinning
-        for i, v in enumerate(self._config.get_pars()):
-            self._config.get_par(v)._bins = new_bins[i]
-
         compression_pairs = [(d, c//d) for d, c in zip(new_bins,
                                                        self._data.shape)]
         flattened = [l for p in compression_pairs for l in p]
-        self._data = self._data.reshape(flattened)
+        data = self._data.reshape(flattened)
         for i in range(len(new_bins)):
-            self._data = self._data.sum(-1*(i+1))
+            data = data.sum(-1*(i+1))
+
+        # Only change the spectrum once there is the memory for it
+        for i, v in enumerate(self._config.get_pars()):
+            self._config.get_par(v)._bins = new_bins[i]
+        self._data = data
 
     def scale(self, num_decays):
         """ Scale THIS spectra to represent *num_decays* worth of decays over
-- 
2.43.0


From 724e82d8d5cc9cc6ee18024dbb08589e6e5c5aab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:09:44 +0000
Subject: [PATCH 94/95] fix: statistics per bin returned by a fit change with
 the next fit

---
 echidna/fit/minimise.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/echidna/fit/minimise.py b/echidna/fit/minimise.py
index 9a0706b..8ad36a7 100644
--- a/echidna/fit/minimise.py
+++ b/echidna/fit/minimise.py
@@ -364,8 +364,9 @@ class GridSearch(FitResults, Minimiser):
             else:  # penalty term = 0
                 parameter.set_penalty_term(0.)
 
-        # Return minimum to fitting
-        return self.get_raw_stat(position), self.get_penalty_term(position)
+        # Return minimum to fitting - a copy, the next fit refills the grid
+        return (copy.copy(self.get_raw_stat(position)),
+                self.get_penalty_term(position))
 
     def nd_project_stat(self, indices, *parameters):
         """ Projects the test statistic values, at given the given
-- 
2.43.0


From d3dd4c0f03995cef5a282ae7d74ae5f8bbeb542d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:09:40 +0000
Subject: [PATCH 95/95] fix: cuts without bins leave a spectrum with a broken
 axis

---
 echidna/core/spectra.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/echidna/core/spectra.py b/echidna/core/spectra.py
index 0d81940..e6305c0 100644
--- a/echidna/core/spectra.py
+++ b/echidna/core/spectra.py
@@ -455,6 +455,7 @@ class Spectra(object):
             bound.
           ValueError: [parameter]_high value is lower than the parameters
             higher bound.
+          ValueError: There are no bins between the new bounds.
           IndexError: Suffix to [parameter] is not _high or _low.
         """
         # First check dimensions and bounds in kwargs are valid
@@ -484,6 +485,7 @@ class Spectra(object):
                                  "[dimension name]_low" % arg)
         slices_low = []
         slices_high = []
+        new_pars = []  # Only changed once all the bounds are known to be valid
         for par_name in self._config.get_pars():
             par = self._config.get_par(par_name)
             kw_low = "%s_low" % par_name
@@ -533,6 +535,12 @@ class Spectra(object):
             slices_high.append(high_bin)
             slices_low.append(low_bin)
             new_bins = high_bin - low_bin
+            if new_bins < 1:
+                raise ValueError("No bins of %s between %s and %s"
+                                 % (par_name, kwargs[kw_low],
+                                    kwargs[kw_high]))
+            new_pars.append((par, new_low, new_high, new_bins))
+        for par, new_low, new_high, new_bins in new_pars:
             par.set_par(low=new_low, high=new_high, bins=new_bins)
         # First set up the command then evaluate. Hacky but hey ho.
         cmd = "self._data["
-- 
2.43.0

