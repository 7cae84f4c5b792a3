From 6e5b34cc97aa0ad41682566367bdb4ee6661db42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:52 +0000
Subject: [PATCH 01/43] fix: give each MetSim object its own parameters

params is a class dictionary that every constructor updated in place, so a
second object in the same process replaced the configuration of the first,
and options of one run leaked into the next.
---
 metsim/metsim.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/metsim/metsim.py b/metsim/metsim.py
index 3c70448..9e68014 100644
--- a/metsim/metsim.py
+++ b/metsim/metsim.py
@@ -28,6 +28,7 @@ output specified.
 # You should have received a copy of the GNU General Public License
 # along with this program.  If not, see <http://www.gnu.org/licenses/>.
 
+import copy
 import itertools
 import json
 import logging
@@ -180,7 +181,10 @@ class MetSim(object):
         self._client = None
         self._domain_slice = domain_slice
         self.progress_bar = ProgressBar()
-        self.params.update(params)
+        # each object works on its own copy of the parameters, so that objects
+        # in the same process do not change each other's configuration
+        self.params = {**MetSim.params, **params}
+        self.params['out_vars'] = copy.deepcopy(self.params['out_vars'])
         logging.captureWarnings(True)
         self.logger = logging.getLogger(__name__)
         self.logger.setLevel(self.params['verbose'])
-- 
2.43.0


From 67792d399075e45118add5d895c2b9c5af4346bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:11 +0000
Subject: [PATCH 02/43] fix: keep output attributes per MetSim object

The units, time and global attributes of a run were stored in a module-level
dictionary, so constructing another object with other units or another time
reference changed the labels that the first one writes.
---
 metsim/metsim.py | 29 +++++++++++++++--------------
 1 file changed, 15 insertions(+), 14 deletions(-)

diff --git a/metsim/metsim.py b/metsim/metsim.py
index 9e68014..e7385c4 100644
--- a/metsim/metsim.py
+++ b/metsim/metsim.py
@@ -180,6 +180,7 @@ class MetSim(object):
         self._state = None
         self._client = None
         self._domain_slice = domain_slice
+        self.attrs = copy.deepcopy(attrs)
         self.progress_bar = ProgressBar()
         # each object works on its own copy of the parameters, so that objects
         # in the same process do not change each other's configuration
@@ -234,7 +235,7 @@ class MetSim(object):
         for k, v in out_vars.items():
             if 'units' in v.keys():
                 if v['units'] in converters[k].keys():
-                    attrs[k]['units'] = v['units']
+                    self.attrs[k]['units'] = v['units']
                 else:
                     self.logger.warn(
                         f'Could not find unit conversion for {k} to {v["units"]}!'
@@ -271,13 +272,13 @@ class MetSim(object):
         self.params['state_stop'] = (self.params['start'] -
                                      pd.Timedelta("1 days"))
         if self.params['utc_offset']:
-            attrs['time'] = {'units': DEFAULT_TIME_UNITS,
-                             'long_name': 'UTC time',
-                             'standard_name': 'utc_time'}
+            self.attrs['time'] = {'units': DEFAULT_TIME_UNITS,
+                                  'long_name': 'UTC time',
+                                  'standard_name': 'utc_time'}
         else:
-            attrs['time'] = {'units': DEFAULT_TIME_UNITS,
-                             'long_name': 'local time at grid location',
-                             'standard_name': 'local_time'}
+            self.attrs['time'] = {'units': DEFAULT_TIME_UNITS,
+                                  'long_name': 'local time at grid location',
+                                  'standard_name': 'local_time'}
 
     def convert_monthly_param(self, name):
         self.met_data[name] = self.met_data['prec'].copy()
@@ -391,7 +392,7 @@ class MetSim(object):
             time_var.calendar = self.params['calendar']
             time_var[:] = date2num(
                 times.to_pydatetime(),
-                units=attrs['time'].get('units', DEFAULT_TIME_UNITS),
+                units=self.attrs['time'].get('units', DEFAULT_TIME_UNITS),
                 calendar=time_var.calendar)
 
             dtype_map = {'float64': 'f8', 'float32': 'f4',
@@ -425,18 +426,18 @@ class MetSim(object):
 
                 if isinstance(v, str):
                     v = v.replace("'", "").replace('"', "")
-                attrs['_global'][k] = v
+                self.attrs['_global'][k] = v
 
             # set global attrs
-            for key, val in attrs['_global'].items():
+            for key, val in self.attrs['_global'].items():
                 setattr(ncout, key, val)
 
             # set variable attrs
-            for key, value in attrs.get('time', {}).items():
+            for key, value in self.attrs.get('time', {}).items():
                 setattr(ncout.variables['time'], key, value)
             for varname, varconf  in self.params['out_vars'].items():
                 outname = varconf['out_name']
-                for key, val in attrs.get(varname, {}).items():
+                for key, val in self.attrs.get(varname, {}).items():
                     setattr(ncout.variables[outname], key, val)
 
     def write_chunk(self, locks=None):
@@ -587,8 +588,8 @@ class MetSim(object):
             self.output[varname] = xr.DataArray(
                 data=np.full(shape, np.nan, dtype=dtype),
                 coords=coords, dims=dims,
-                name=varname, attrs=attrs.get(varname, {}))
-        self.output['time'].attrs.update(attrs['time'])
+                name=varname, attrs=self.attrs.get(varname, {}))
+        self.output['time'].attrs.update(self.attrs['time'])
 
     def _aggregate_state(self):
         """Aggregate data out of the state file and load it into `met_data`"""
-- 
2.43.0


From a276be610814544abea5ff8243833526e57074d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:11 +0000
Subject: [PATCH 03/43] fix: do not rename the default outputs when reading an
 INI file

The [out_vars] section changed the names in the module-level table of
available outputs, so configurations read later in the process inherited
them.
---
 metsim/io.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/metsim/io.py b/metsim/io.py
index 164335d..380ab1e 100644
--- a/metsim/io.py
+++ b/metsim/io.py
@@ -147,7 +147,7 @@ def read_ini_config(config_file, opts):
         conf['out_vars'] = _to_list(conf['out_vars'])
         temp = {}
         for ov in conf['out_vars']:
-            temp[ov] = metsim.available_outputs[ov]
+            temp[ov] = dict(metsim.available_outputs[ov])
         conf['out_vars'] = temp
     else:
         conf['out_vars'] = {}
@@ -155,7 +155,7 @@ def read_ini_config(config_file, opts):
     if 'out_vars' in config:
         temp = {}
         for varname, outname in config['out_vars'].items():
-            temp[varname] = metsim.available_outputs[varname]
+            temp[varname] = dict(metsim.available_outputs[varname])
             temp[varname]['out_name'] = outname
         conf['out_vars'].update(temp)
 
-- 
2.43.0


From f7a17fd5651d93cdf672f18ce1f3b1a753b4ebe8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:11 +0000
Subject: [PATCH 04/43] fix: use the storm parameters of the right month

The month dimension counts from 0 while the calendar month counts from 1, so
every day took dur and t_pk of the following month and December took its own
precipitation amount instead.
---
 metsim/metsim.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metsim/metsim.py b/metsim/metsim.py
index e7385c4..719802e 100644
--- a/metsim/metsim.py
+++ b/metsim/metsim.py
@@ -285,7 +285,7 @@ class MetSim(object):
         months = self.met_data['time'].dt.month
         for m in range(12):
             param = self.domain[name].sel(month=m)
-            locations = {'time': self.met_data['time'].isel(time=months == m)}
+            locations = {'time': self.met_data['time'].isel(time=months == m + 1)}
             self.met_data[name].loc[locations] = param
 
     @property
-- 
2.43.0


From 58c8eecb42b2f5d52b54b0d9169e6c7f580d6c9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:11 +0000
Subject: [PATCH 05/43] fix: read binary forcing_vars from YAML files

For binary forcings the section maps names to a scale and data type, which
must not be inverted (two variables of the same type collide).
---
 metsim/io.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/metsim/io.py b/metsim/io.py
index 380ab1e..0462cc0 100644
--- a/metsim/io.py
+++ b/metsim/io.py
@@ -74,7 +74,9 @@ def read_yaml_config(config_file, opts):
     with open(config_file, 'r') as f:
         config = yaml.load(f, Loader=yaml.SafeLoader)
     conf = OrderedDict(config['MetSim'])
-    conf['forcing_vars'] = _invert_dict(OrderedDict(config['forcing_vars']))
+    conf['forcing_vars'] = OrderedDict(config['forcing_vars'])
+    if conf['forcing_fmt'] != 'binary':
+        conf['forcing_vars'] = _invert_dict(conf['forcing_vars'])
     conf['domain_vars'] = _invert_dict(OrderedDict(config['domain_vars']))
     conf['state_vars'] = _invert_dict(OrderedDict(config['state_vars']))
     conf['out_vars'] = OrderedDict(config['out_vars'])
-- 
2.43.0


From 48f91da8e0a4458b4ac9e5cc66eb8b5d594ffc57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:11 +0000
Subject: [PATCH 06/43] fix: read binary forcings that do not have four
 variables

---
 metsim/io.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metsim/io.py b/metsim/io.py
index 0462cc0..e24ed9e 100644
--- a/metsim/io.py
+++ b/metsim/io.py
@@ -340,7 +340,7 @@ def read_binary(data_handle, domain=None,
     with open(data_handle, 'rb') as f:
         i = 0
         points_read = 0
-        points_needed = 4 * n_days
+        points_needed = n_vars * n_days
         while points_read != points_needed:
             bytes = f.read(2)
             if bytes:
-- 
2.43.0


From 31cd2608f8152f4246d6e388d3bff29bfe70d1a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:48 +0000
Subject: [PATCH 07/43] fix: take start and stop from the forcings when they
 are 'forcing'

---
 metsim/io.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/metsim/io.py b/metsim/io.py
index e24ed9e..08125db 100644
--- a/metsim/io.py
+++ b/metsim/io.py
@@ -206,9 +206,12 @@ def process_nc(params: dict, domain: xr.Dataset) -> xr.Dataset:
         "netcdf": read_netcdf,
         "data": read_data
     }
+    # 'forcing' means the times are to be inferred from the forcing data
+    start, stop = [None if isinstance(params[p], str) and
+                   params[p] == 'forcing' else params[p]
+                   for p in ('start', 'stop')]
     return read_funcs[params['forcing_fmt']](
-        params['forcing'], domain=domain,
-        start=params['start'], stop=params['stop'],
+        params['forcing'], domain=domain, start=start, stop=stop,
         calendar=params['calendar'], var_dict=params.get('forcing_vars', None))
 
 
@@ -315,7 +318,7 @@ def read_data(data_handle, domain=None, is_worker=False,
         varlist = list(var_dict.values())
     data_handle = data_handle[varlist]
 
-    if start is not None and stop is not None:
+    if start is not None or stop is not None:
         data_handle = data_handle.sel(time=slice(start, stop))
         dates = data_handle.indexes['time']
         data_handle['day_of_year'] = xr.Variable(('time', ), dates.dayofyear)
-- 
2.43.0


From ebea1124b4939ca5ba5e7d8011854c9f624acddd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:48 +0000
Subject: [PATCH 08/43] fix: accept datetime.date for start and stop

---
 metsim/metsim.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/metsim/metsim.py b/metsim/metsim.py
index 719802e..432e27f 100644
--- a/metsim/metsim.py
+++ b/metsim/metsim.py
@@ -257,6 +257,9 @@ class MetSim(object):
                     self.params[p] = datetime(year, month, day)
                 else:
                     self.params[p] = pd.to_datetime(self.params[p])
+            else:
+                # YAML files may give dates as datetime.date
+                self.params[p] = pd.to_datetime(self.params[p])
 
         # update calendar from input data (fall back to params version)
         self.params['calendar'] = self.met_data['time'].encoding.get(
-- 
2.43.0


From 97573adf82b67a093e43ad14b3e01b4f55b1740c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:11 +0000
Subject: [PATCH 09/43] fix: ignore the capitalization of lw_type and lw_cloud

---
 metsim/metsim.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/metsim/metsim.py b/metsim/metsim.py
index 432e27f..a2090f5 100644
--- a/metsim/metsim.py
+++ b/metsim/metsim.py
@@ -684,7 +684,11 @@ class MetSim(object):
                             'brutsaert', 'satterlund',
                             'idso', 'prata']}
         for k, v in opts.items():
-            if not self.params.get(k, None) in v:
+            opt = self.params.get(k, None)
+            if k != 'out_precision' and isinstance(opt, str):
+                # capitalization does not matter
+                opt = opt.lower()
+            if opt not in v:
                 errs.append("Invalid option given for {}".format(k))
 
         # If any errors, raise and give a summary
-- 
2.43.0


From 3e3f9a780020ebd83e5ec2beeddd83df4cffd9a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:11 +0000
Subject: [PATCH 10/43] fix: refuse unknown precipitation disaggregation types

---
 metsim/metsim.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/metsim/metsim.py b/metsim/metsim.py
index a2090f5..368ff98 100644
--- a/metsim/metsim.py
+++ b/metsim/metsim.py
@@ -682,7 +682,8 @@ class MetSim(object):
                 'lw_cloud': ['default', 'cloud_deardorff'],
                 'lw_type': ['default', 'tva', 'anderson',
                             'brutsaert', 'satterlund',
-                            'idso', 'prata']}
+                            'idso', 'prata'],
+                'prec_type': ['uniform', 'triangle', 'mix']}
         for k, v in opts.items():
             opt = self.params.get(k, None)
             if k != 'out_precision' and isinstance(opt, str):
-- 
2.43.0


From a68f6393f9a92a1fae74a207ee5f55b0ae6717f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:11 +0000
Subject: [PATCH 11/43] fix: leave daily average shortwave unchanged in daily
 passthrough runs

---
 metsim/metsim.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/metsim/metsim.py b/metsim/metsim.py
index 368ff98..7148374 100644
--- a/metsim/metsim.py
+++ b/metsim/metsim.py
@@ -791,7 +791,11 @@ def wrap_run_cell(func: callable, params: dict,
             calendar=params['calendar'])
     else:
         # convert srad to daily average flux from daytime flux
-        df_base['shortwave'] *= df_base['daylength'] / cnst.SEC_PER_DAY
+        # (shortwave that is passed through is a daily average already,
+        # unless it is said to be averaged over the daylight hours)
+        if (params['method'] != 'passthrough' or
+                params.get('sw_averaging', '') == 'daylight'):
+            df_base['shortwave'] *= df_base['daylength'] / cnst.SEC_PER_DAY
         # If we're outputting daily values, we dont' need to
         # change the output dates - see inside of `if` condition
         # above for more explanation
-- 
2.43.0


From 8558a806a7feedcf342848ec4037110570f32fdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:11 +0000
Subject: [PATCH 12/43] fix: assign forcings stamped at the end of a day to
 that day

---
 metsim/io.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/metsim/io.py b/metsim/io.py
index 08125db..7ce7da4 100644
--- a/metsim/io.py
+++ b/metsim/io.py
@@ -297,8 +297,7 @@ def read_netcdf(data_handle, domain=None, is_worker=False,
     if 'time' in ds.coords:
         if isinstance(ds.indexes['time'], xr.CFTimeIndex):
             ds['time'] = ds.indexes['time'].to_datetimeindex()
-        ds['time'] = (ds.indexes['time'] -
-                      pd.Timedelta(hours=11, minutes=59, seconds=59)).round('D')
+        ds['time'] = ds.indexes['time'].floor('D')
 
     if start is not None or stop is not None:
         ds = ds.sel(time=slice(start, stop))
-- 
2.43.0


From 842f32923af436e3902228c6cd5caae10be594c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:11 +0000
Subject: [PATCH 13/43] fix: allow chunks to name only some of the domain
 dimensions

---
 metsim/metsim.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/metsim/metsim.py b/metsim/metsim.py
index 7148374..6900ed2 100644
--- a/metsim/metsim.py
+++ b/metsim/metsim.py
@@ -457,7 +457,8 @@ class MetSim(object):
                         outname = varconf['out_name']
                         dims = ncout.variables[outname].dimensions[1:]
                         write_slice = ((slice(None), ) + tuple(
-                            self._domain_slice[d] for d in dims))
+                            self._domain_slice.get(d, slice(None))
+                            for d in dims))
                         ncout.variables[outname][write_slice] = (
                             self.output[varname].sel(time=time_slice).values)
 
-- 
2.43.0


From 2d9fea260f897b87e24117c56749cd74134c1a03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:11 +0000
Subject: [PATCH 14/43] fix: do not truncate constant_vars to the type of the
 forcings

---
 metsim/metsim.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/metsim/metsim.py b/metsim/metsim.py
index 6900ed2..a354965 100644
--- a/metsim/metsim.py
+++ b/metsim/metsim.py
@@ -311,8 +311,8 @@ class MetSim(object):
             if constant_vars:
                 da_template = self._met_data[list(self._met_data)[0]]
                 for var in constant_vars.keys():
-                    self._met_data[var] = xr.full_like(da_template,
-                                                       float(constant_vars[var]))
+                    self._met_data[var] = xr.full_like(
+                        da_template, float(constant_vars[var]), dtype=float)
 
             self._validate_force_times(force_times=self._met_data['time'])
         return self._met_data
-- 
2.43.0


From 550a4c8de9bfa0a43bda89c76b4a3d4af7d8e576 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:11 +0000
Subject: [PATCH 15/43] fix: do not check the temperatures of cells outside of
 the mask

---
 metsim/metsim.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metsim/metsim.py b/metsim/metsim.py
index a354965..df505de 100644
--- a/metsim/metsim.py
+++ b/metsim/metsim.py
@@ -618,7 +618,7 @@ class MetSim(object):
 
         trailing['time'] = record_dates
         dtr = self.met_data['t_max'] - self.met_data['t_min']
-        if (dtr < 0).any():
+        if (dtr < 0).where(self.domain['mask'] > 0, False).any():
             raise ValueError("Daily maximum temperature lower"
                              " than daily minimum temperature!")
         sm_dtr = xr.concat([trailing, dtr], dim='time').load()
-- 
2.43.0


From 38b1babbb9f81ec7cc81cf5014de952bc2bc51a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:11 +0000
Subject: [PATCH 16/43] fix: create the output directory if it does not exist

---
 metsim/metsim.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/metsim/metsim.py b/metsim/metsim.py
index df505de..f7aff78 100644
--- a/metsim/metsim.py
+++ b/metsim/metsim.py
@@ -337,6 +337,7 @@ class MetSim(object):
 
     def run(self):
         self._validate_setup()
+        os.makedirs(os.path.abspath(self.params['out_dir']), exist_ok=True)
         write_locks = {}
         for times in self._times:
             filename = self._get_output_filename(times)
-- 
2.43.0


From c9fe4fceecd5b8a7ad054f17e629385fe114c6ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:11 +0000
Subject: [PATCH 17/43] fix: select the domain from in-memory forcing data

---
 metsim/io.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/metsim/io.py b/metsim/io.py
index 7ce7da4..85018ec 100644
--- a/metsim/io.py
+++ b/metsim/io.py
@@ -317,6 +317,11 @@ def read_data(data_handle, domain=None, is_worker=False,
         varlist = list(var_dict.values())
     data_handle = data_handle[varlist]
 
+    if domain is not None:
+        data_handle = data_handle.sel({k: domain[k]
+                                       for k in list(domain.dims.keys())
+                                       if k in list(data_handle.dims.keys())})
+
     if start is not None or stop is not None:
         data_handle = data_handle.sel(time=slice(start, stop))
         dates = data_handle.indexes['time']
-- 
2.43.0


From 2a3df612637beb45fed7e60c73ac1f96137090eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:40 +0000
Subject: [PATCH 18/43] fix: do not overwrite output files when out_freq is
 less than a day

---
 metsim/metsim.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/metsim/metsim.py b/metsim/metsim.py
index f7aff78..886f3c0 100644
--- a/metsim/metsim.py
+++ b/metsim/metsim.py
@@ -228,6 +228,8 @@ class MetSim(object):
         self._times = self._get_output_times(
             freq=self.params['out_freq'],
             period_ending=self.params['period_ending'])
+        suffixes = [self.get_nc_output_suffix(t) for t in self._times]
+        self._dates_are_unique = len(set(suffixes)) == len(suffixes)
 
         self._update_unit_attrs(self.params['out_vars'])
 
@@ -563,11 +565,14 @@ class MetSim(object):
         else:
             dummy = pd.Series(np.arange(len(times)), index=times)
             grouper = pd.Grouper(freq=freq)
-            times = [t.index for k, t in dummy.groupby(grouper)]
+            times = [t.index for k, t in dummy.groupby(grouper) if len(t)]
         return times
 
     def _get_output_filename(self, times):
         suffix = self.get_nc_output_suffix(times)
+        if not self._dates_are_unique:
+            # The dates do not tell the files apart: use the time of day too
+            suffix = '{:%Y%m%d%H%M}-{:%Y%m%d%H%M}'.format(*times[[0, -1]])
         fname = '{}_{}.nc'.format(self.params['out_prefix'], suffix)
         output_filename = os.path.join(
             os.path.abspath(self.params['out_dir']), fname)
-- 
2.43.0


From d55d9ccf9ee26694309656fc5b37a467a99a1052 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:40 +0000
Subject: [PATCH 19/43] fix: limit vapor pressure to saturation at the ends of
 the record

---
 metsim/disaggregate.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/metsim/disaggregate.py b/metsim/disaggregate.py
index 9e71d51..e5b0c91 100644
--- a/metsim/disaggregate.py
+++ b/metsim/disaggregate.py
@@ -99,6 +99,10 @@ def disaggregate(df_daily: pd.DataFrame, params: dict,
     df_disagg['vapor_pressure'] = (df_disagg['vapor_pressure']
                                    .fillna(method='ffill')
                                    .fillna(method='bfill'))
+    # The filled values may not exceed saturation either
+    df_disagg['vapor_pressure'] = np.minimum(
+        df_disagg['vapor_pressure'].values,
+        svp(df_disagg['temp'].values) / cnst.MBAR_PER_BAR)
 
     df_disagg['rel_humid'] = relative_humidity(
         df_disagg['vapor_pressure'].values, df_disagg['temp'].values)
-- 
2.43.0


From 537f8c81a95a513e48505f7e42f091b97bd5fdb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:40 +0000
Subject: [PATCH 20/43] fix: refuse missing input values at active cells

---
 metsim/metsim.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/metsim/metsim.py b/metsim/metsim.py
index 886f3c0..165e656 100644
--- a/metsim/metsim.py
+++ b/metsim/metsim.py
@@ -491,8 +491,14 @@ class MetSim(object):
                 locs = {d: i for d, i in zip(self.domain['mask'].dims, index)}
             else:
                 continue
+            cell_data = self.met_data.isel(**locs)
+            missing = [v for v in cell_data.data_vars
+                       if cell_data[v].isnull().any()]
+            if missing:
+                raise ValueError('Missing values in {} at {}'.format(
+                    ', '.join(map(str, missing)), locs))
             df, state = wrap_run_cell(self.method.run, params,
-                                      self.met_data.isel(**locs),
+                                      cell_data,
                                       self.state.isel(**locs),
                                       self.disagg, times)
 
-- 
2.43.0


From 5b32d60db4c30fade4782a2e85f9b3c97b0dbea9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:40 +0000
Subject: [PATCH 21/43] fix: skip leading blank lines when detecting the config
 file type

---
 metsim/io.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metsim/io.py b/metsim/io.py
index 85018ec..2fa0be0 100644
--- a/metsim/io.py
+++ b/metsim/io.py
@@ -47,7 +47,7 @@ def check_config_type(config_file):
     # Search for first non-comment line
     line = '#'
     with open(config_file, 'r') as f:
-        while line.strip().startswith('#'):
+        while line and (not line.strip() or line.strip().startswith('#')):
             line = f.readline()
     # Strip out any inline comment
     line = line.split('#')[0].strip()
-- 
2.43.0


From 7973d036e7653a6760a2ae2d99f0ae67e0bfdbdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:42 +0000
Subject: [PATCH 22/43] fix: let the multiprocessing schedulers share the write
 locks

---
 metsim/metsim.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/metsim/metsim.py b/metsim/metsim.py
index 165e656..ab1e948 100644
--- a/metsim/metsim.py
+++ b/metsim/metsim.py
@@ -32,6 +32,7 @@ import copy
 import itertools
 import json
 import logging
+import multiprocessing
 import os
 import sys
 import warnings
@@ -341,10 +342,15 @@ class MetSim(object):
         self._validate_setup()
         os.makedirs(os.path.abspath(self.params['out_dir']), exist_ok=True)
         write_locks = {}
+        make_lock = get_write_lock
+        if self.params['scheduler'] in ['multiprocessing', 'processes']:
+            # plain multiprocessing locks can not be sent to the workers
+            manager = multiprocessing.Manager()
+            make_lock = lambda filename: manager.Lock()
         for times in self._times:
             filename = self._get_output_filename(times)
             self.setup_netcdf_output(filename, times)
-            write_locks[filename] = combine_locks([NETCDFC_LOCK, get_write_lock(filename)])
+            write_locks[filename] = combine_locks([NETCDFC_LOCK, make_lock(filename)])
         self.logger.info('Starting {} chunks...'.format(len(self.slices)))
 
         delayed_objs = [wrap_run_slice(self.params, write_locks, dslice)
-- 
2.43.0


From c070d8be1d9f17bebf6ed19c380474fae2aa8662 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:18 +0000
Subject: [PATCH 23/43] fix: do not use the netCDF library from several threads
 at once

---
 metsim/io.py     |  2 ++
 metsim/metsim.py | 17 ++++++++++++-----
 2 files changed, 14 insertions(+), 5 deletions(-)

diff --git a/metsim/io.py b/metsim/io.py
index 2fa0be0..b65843e 100644
--- a/metsim/io.py
+++ b/metsim/io.py
@@ -274,6 +274,7 @@ def read_netcdf(data_handle, domain=None, is_worker=False,
         ds = xr.open_mfdataset(data_handle)
     else:
         ds = xr.open_dataset(data_handle)
+    close_files = ds.close
 
     # Needs to happen first to make sure variable names are correct
     if var_dict is not None:
@@ -304,6 +305,7 @@ def read_netcdf(data_handle, domain=None, is_worker=False,
         dates = ds.indexes['time']
         ds['day_of_year'] = xr.Variable(('time', ), dates.dayofyear)
 
+    ds.set_close(close_files)
     return ds
 
 
diff --git a/metsim/metsim.py b/metsim/metsim.py
index ab1e948..a893fb5 100644
--- a/metsim/metsim.py
+++ b/metsim/metsim.py
@@ -47,6 +47,7 @@ import xarray as xr
 
 import dask
 from dask.diagnostics import ProgressBar
+from dask.utils import SerializableLock
 from netCDF4 import Dataset
 from cftime import date2num
 from datetime import datetime
@@ -61,6 +62,10 @@ from metsim.methods import mtclim, passthrough
 from metsim.physics import solar_geom
 from metsim.units import converters
 
+# The netCDF library is not thread safe, and xarray does not lock all of its
+# accesses to the files that it opens. This lock is held whenever a worker
+# reads or writes files. Always acquire it before any of the locks of xarray.
+IO_LOCK = SerializableLock()
 NO_SLICE = {}
 DASK_CORE_SCHEDULERS = ['multiprocessing', 'threading', 'synchronous',
                         'processes', 'threads', 'single-threaded', 'sync']
@@ -297,8 +302,9 @@ class MetSim(object):
     @property
     def domain(self):
         if self._domain is None:
-            self._domain = io.read_domain(self.params).isel(
-                **self._domain_slice)
+            domain = io.read_domain(self.params)
+            self._domain = domain.isel(**self._domain_slice)
+            self._domain.set_close(domain.close)
         return self._domain
 
     @property
@@ -460,7 +466,7 @@ class MetSim(object):
             filename = self._get_output_filename(times)
             lock = locks.get(filename, DummyLock())
             time_slice = slice(times[0], times[-1])
-            with lock:
+            with IO_LOCK, lock:
                 with Dataset(filename, mode="r+") as ncout:
                     for varname, varconf in self.params['out_vars'].items():
                         outname = varconf['out_name']
@@ -835,8 +841,9 @@ def wrap_run_cell(func: callable, params: dict,
 @dask.delayed()
 def wrap_run_slice(params, write_locks, domain_slice=NO_SLICE):
     params['is_worker'] = True
-    ms = MetSim(params, domain_slice=domain_slice)
-    ms.load_inputs()
+    with IO_LOCK:
+        ms = MetSim(params, domain_slice=domain_slice)
+        ms.load_inputs()
     ms.run_slice()
     ms.write_chunk(locks=write_locks)
 
-- 
2.43.0


From 70d5e98d83787beaabe57a9429387d31cf509780 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:37 +0000
Subject: [PATCH 24/43] fix: count the 90 days of state in the calendar of the
 forcings

---
 metsim/datetime.py | 11 +++++++++++
 metsim/metsim.py   | 10 +++++-----
 2 files changed, 16 insertions(+), 5 deletions(-)

diff --git a/metsim/datetime.py b/metsim/datetime.py
index dcd60aa..abae56f 100644
--- a/metsim/datetime.py
+++ b/metsim/datetime.py
@@ -72,6 +72,17 @@ def date_range(start=None, end=None, periods=None, freq='D', tz=None,
                 'Specified arguments are not valid for this calendar')
 
 
+def shift_dates(dates, minutes, calendar='standard'):
+    ''' Shift a datetime index by a number of minutes of the given calendar
+    '''
+    if calendar in ['standard', 'gregorian', 'propoleptic_gregorian']:
+        return dates + pd.Timedelta('{} minutes'.format(minutes))
+    units = 'minutes since %s' % DEFAULT_ORIGIN
+    nums = date2num(dates.to_pydatetime(), units, calendar=calendar)
+    times = num2date(nums + int(minutes), units, calendar)
+    return xr.CFTimeIndex(times).to_datetimeindex()
+
+
 def decode_freq(freq):
     if len(freq) > 1:
         r = re.compile('([0-9]+)([a-zA-Z]+)')
diff --git a/metsim/metsim.py b/metsim/metsim.py
index a893fb5..49cf2eb 100644
--- a/metsim/metsim.py
+++ b/metsim/metsim.py
@@ -56,7 +56,7 @@ from xarray.backends.locks import get_write_lock, combine_locks, NETCDFC_LOCK
 
 import metsim.constants as cnst
 from metsim import io
-from metsim.datetime import date_range
+from metsim.datetime import date_range, shift_dates
 from metsim.disaggregate import disaggregate
 from metsim.methods import mtclim, passthrough
 from metsim.physics import solar_geom
@@ -278,10 +278,10 @@ class MetSim(object):
         assert self.params['stop'] <= pd.Timestamp(
             force_times.values[-1]).to_pydatetime()
 
-        self.params['state_start'] = (self.params['start'] -
-                                      pd.Timedelta("90 days"))
-        self.params['state_stop'] = (self.params['start'] -
-                                     pd.Timedelta("1 days"))
+        for p, days in [('state_start', 90), ('state_stop', 1)]:
+            self.params[p] = shift_dates(
+                pd.DatetimeIndex([self.params['start']]),
+                -days * cnst.MIN_PER_DAY, calendar=self.params['calendar'])[0]
         if self.params['utc_offset']:
             self.attrs['time'] = {'units': DEFAULT_TIME_UNITS,
                                   'long_name': 'UTC time',
-- 
2.43.0


From 3746f5ae884d70a0d8781f590ddefbac2d6ead1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:37 +0000
Subject: [PATCH 25/43] fix: end period ending output on February 28 of noleap
 leap years

---
 metsim/metsim.py | 18 +++++++-----------
 1 file changed, 7 insertions(+), 11 deletions(-)

diff --git a/metsim/metsim.py b/metsim/metsim.py
index 49cf2eb..0c3f81f 100644
--- a/metsim/metsim.py
+++ b/metsim/metsim.py
@@ -566,17 +566,14 @@ class MetSim(object):
                 '{} minutes'.format(self.params['time_step']))
         else:
             delta = pd.Timedelta('0 days')
-        if period_ending:
-            offset = pd.Timedelta(
-                '{} minutes'.format(self.params['time_step']))
-        else:
-            offset = pd.Timedelta('0 minutes')
-
         start = pd.Timestamp(prototype['time'].values[0]).to_pydatetime()
         stop = pd.Timestamp(prototype['time'].values[-1]).to_pydatetime()
-        times = date_range(start + offset, stop + offset + delta,
+        times = date_range(start, stop + delta,
                            freq="{}T".format(self.params['time_step']),
                            calendar=self.params['calendar'])
+        if period_ending:
+            times = shift_dates(times, self.params['time_step'],
+                                calendar=self.params['calendar'])
 
         if freq is None or freq == '':
             times = [times]
@@ -807,13 +804,12 @@ def wrap_run_cell(func: callable, params: dict,
         stop = (out_times.values[-1] + pd.Timedelta('1 days') -
                 pd.Timedelta("{} minutes".format(params['time_step'])))
 
-        if params['period_ending']:
-            start += pd.Timedelta('{} minutes'.format(params['time_step']))
-            stop += pd.Timedelta('{} minutes'.format(params['time_step']))
-
         new_times = date_range(
             start, stop, freq='{}T'.format(params['time_step']),
             calendar=params['calendar'])
+        if params['period_ending']:
+            new_times = shift_dates(new_times, params['time_step'],
+                                    calendar=params['calendar'])
     else:
         # convert srad to daily average flux from daytime flux
         # (shortwave that is passed through is a daily average already,
-- 
2.43.0


From ff77650ec8e1867f042e2eb6af7a83bbd5f4e269 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:15 +0000
Subject: [PATCH 26/43] fix: do not extrapolate temperatures beyond the record

---
 metsim/disaggregate.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/metsim/disaggregate.py b/metsim/disaggregate.py
index e5b0c91..e92955f 100644
--- a/metsim/disaggregate.py
+++ b/metsim/disaggregate.py
@@ -262,7 +262,8 @@ def temp(t_min: np.array, t_max: np.array, out_len: int,
 
     # Interpolate the values
     interp = scipy.interpolate.PchipInterpolator(time, temp, extrapolate=True)
-    temps = interp(ts * np.arange(0, out_len))
+    # (and do not extrapolate beyond the first and last times)
+    temps = interp(np.clip(ts * np.arange(0, out_len), time[0], time[-1]))
     return temps
 
 
-- 
2.43.0


From cbf5eb6ecd534e270064a32862203b0b30efc45a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:09:51 +0000
Subject: [PATCH 27/43] fix: give the vapor pressure of runs of a single day

---
 metsim/disaggregate.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/metsim/disaggregate.py b/metsim/disaggregate.py
index e92955f..e7f13ce 100644
--- a/metsim/disaggregate.py
+++ b/metsim/disaggregate.py
@@ -482,9 +482,13 @@ def vapor_pressure(vp_daily: np.array, temp: np.array, t_t_min: np.array,
         A sub-daily timeseries of the vapor pressure
     """
     # Linearly interpolate the values
-    interp = scipy.interpolate.interp1d(t_t_min, vp_daily / cnst.MBAR_PER_BAR,
-                                        bounds_error=False)
-    vp_disagg = interp(ts * np.arange(0, n_out))
+    if len(t_t_min) > 1:
+        interp = scipy.interpolate.interp1d(
+            t_t_min, vp_daily / cnst.MBAR_PER_BAR, bounds_error=False)
+        vp_disagg = interp(ts * np.arange(0, n_out))
+    else:
+        # There is nothing to interpolate between on a single day
+        vp_disagg = np.full(n_out, vp_daily[0] / cnst.MBAR_PER_BAR)
 
     # Account for situations where vapor pressure is higher than
     # saturation point
-- 
2.43.0


From 9de32f73369cb741aa9a3ca1818054a8d98c7c80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:12:52 +0000
Subject: [PATCH 28/43] fix: refuse unknown methods before writing any output

---
 metsim/metsim.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/metsim/metsim.py b/metsim/metsim.py
index 0c3f81f..f143812 100644
--- a/metsim/metsim.py
+++ b/metsim/metsim.py
@@ -714,6 +714,9 @@ class MetSim(object):
             if opt not in v:
                 errs.append("Invalid option given for {}".format(k))
 
+        if self.params['method'] not in MetSim.methods:
+            errs.append("Invalid option given for method")
+
         # If any errors, raise and give a summary
         if len(errs) > 1:
             raise Exception("\n  ".join(errs))
-- 
2.43.0


From c435a0ae8b21af5ac7c8c59a20f08ccc23ebe190 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:30:35 +0000
Subject: [PATCH 29/43] fix: convert air pressure to hPa

A kPa is 10 hPa, not 100.
---
 metsim/units.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metsim/units.py b/metsim/units.py
index c784f5d..3a0fbda 100644
--- a/metsim/units.py
+++ b/metsim/units.py
@@ -36,7 +36,7 @@ converters = {
             },
         'air_pressure': {
             'kPa': lambda x, ts: x,
-            'hPa': lambda x, ts: x * 100.,
+            'hPa': lambda x, ts: x * 10.,
             'Pa': lambda x, ts: x * 1000.,
             },
         'tskc': {
-- 
2.43.0


From db8814439266289a40f2a6ed11fd1ff9203d356e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:40:42 +0000
Subject: [PATCH 30/43] fix: do not truncate state and storm parameters to
 integer forcings

Forcings stored as integers made the temperatures of the state, and the
monthly storm parameters, integers as well.
---
 metsim/disaggregate.py | 2 +-
 metsim/metsim.py       | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/metsim/disaggregate.py b/metsim/disaggregate.py
index e7f13ce..583acaf 100644
--- a/metsim/disaggregate.py
+++ b/metsim/disaggregate.py
@@ -244,7 +244,7 @@ def temp(t_min: np.array, t_max: np.array, out_len: int,
     """
     # Calculate times of min/max temps by interweaving arrays
     time = np.ravel(np.column_stack((t_t_min, t_t_max)))
-    temp = np.ravel(np.column_stack((t_min, t_max)))
+    temp = np.ravel(np.column_stack((t_min, t_max))).astype(float)
 
     # Account for end points
     ts_ends = cnst.MIN_PER_HOUR * cnst.HOURS_PER_DAY
diff --git a/metsim/metsim.py b/metsim/metsim.py
index f143812..9be32c1 100644
--- a/metsim/metsim.py
+++ b/metsim/metsim.py
@@ -292,7 +292,7 @@ class MetSim(object):
                                   'standard_name': 'local_time'}
 
     def convert_monthly_param(self, name):
-        self.met_data[name] = self.met_data['prec'].copy()
+        self.met_data[name] = self.met_data['prec'].astype(float)
         months = self.met_data['time'].dt.month
         for m in range(12):
             param = self.domain[name].sel(month=m)
-- 
2.43.0


From 9b584aac8d3d8c20d8d899b750b19fe70ffc720b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:48:21 +0000
Subject: [PATCH 31/43] fix: refuse a state that lacks days or repeats them

The number of records was checked but not their dates, so that a record
with a repeated day, or out of order, was taken for the 90 days before the
start.
---
 metsim/metsim.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/metsim/metsim.py b/metsim/metsim.py
index 9be32c1..4a0adb4 100644
--- a/metsim/metsim.py
+++ b/metsim/metsim.py
@@ -624,6 +624,9 @@ class MetSim(object):
         record_dates = date_range(self.params['state_start'],
                                   self.params['state_stop'],
                                   calendar=self.params['calendar'])
+        if not (self.state.indexes['time'] == record_dates).all():
+            raise ValueError('State must hold each of the 90 days before the '
+                             'start of the simulation once, in order')
         trailing = self.state['prec']
         trailing['time'] = record_dates
         total_precip = xr.concat([trailing, self.met_data['prec']],
-- 
2.43.0


From e2d1d7d0dc2f20639c520937d7c61b0e36bebca9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:38 +0000
Subject: [PATCH 32/43] fix: refuse infinite forcings and states with missing
 values

---
 metsim/metsim.py | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/metsim/metsim.py b/metsim/metsim.py
index 4a0adb4..efd453e 100644
--- a/metsim/metsim.py
+++ b/metsim/metsim.py
@@ -504,14 +504,16 @@ class MetSim(object):
             else:
                 continue
             cell_data = self.met_data.isel(**locs)
-            missing = [v for v in cell_data.data_vars
-                       if cell_data[v].isnull().any()]
-            if missing:
-                raise ValueError('Missing values in {} at {}'.format(
-                    ', '.join(map(str, missing)), locs))
+            cell_state = self.state.isel(**locs)
+            for name, ds in [('forcing', cell_data), ('state', cell_state)]:
+                missing = [v for v in ds.data_vars
+                           if not np.isfinite(ds[v]).all()]
+                if missing:
+                    raise ValueError('Missing values in {} of the {} at {}'
+                                     .format(', '.join(map(str, missing)),
+                                             name, locs))
             df, state = wrap_run_cell(self.method.run, params,
-                                      cell_data,
-                                      self.state.isel(**locs),
+                                      cell_data, cell_state,
                                       self.disagg, times)
 
             # Cut the returned data down to the correct time index
-- 
2.43.0


From 47027d8f212d9f279fb67fea122d1f40cf47f360 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:27 +0000
Subject: [PATCH 33/43] fix: wait for running chunks and close the inputs and
 the cluster when a run ends or fails

---
 metsim/metsim.py | 37 ++++++++++++++++++++++++++-----------
 1 file changed, 26 insertions(+), 11 deletions(-)

diff --git a/metsim/metsim.py b/metsim/metsim.py
index efd453e..bb75c94 100644
--- a/metsim/metsim.py
+++ b/metsim/metsim.py
@@ -39,6 +39,8 @@ import warnings
 import time as tm
 from collections import OrderedDict
 from collections.abc import Iterable
+from concurrent.futures import ThreadPoolExecutor
+from contextlib import nullcontext
 from getpass import getuser
 
 import numpy as np
@@ -361,18 +363,31 @@ class MetSim(object):
 
         delayed_objs = [wrap_run_slice(self.params, write_locks, dslice)
                         for dslice in self.slices]
-        persisted = dask.persist(delayed_objs, num_workers=self.params['num_workers'])
-        self.progress_bar(persisted)
-        dask.compute(persisted)
-        self.logger.info('Cleaning up...')
+        kwargs = {'num_workers': self.params['num_workers']}
+        # When a chunk fails others may still be running. Leaving the pool waits
+        # for them, so that they do not get in the way of what comes next.
+        pool = nullcontext()
+        if (self.params['scheduler'] in ['threading', 'threads'] and
+                dask.config.get('pool', None) is None):
+            pool = kwargs['pool'] = ThreadPoolExecutor(kwargs['num_workers'])
         try:
-            self._client.cluster.close()
-            self._client.close()
-            if self.params['verbose'] == logging.DEBUG:
-                print()
-                print('closed dask cluster/client')
-        except Exception:
-            pass
+            with pool:
+                persisted = dask.persist(delayed_objs, **kwargs)
+                self.progress_bar(persisted)
+                dask.compute(persisted)
+        finally:
+            self.logger.info('Cleaning up...')
+            for ds in (self._domain, self._met_data, self._state):
+                if ds is not None:
+                    ds.close()
+            try:
+                self._client.cluster.close()
+                self._client.close()
+                if self.params['verbose'] == logging.DEBUG:
+                    print()
+                    print('closed dask cluster/client')
+            except Exception:
+                pass
 
     def load_inputs(self, close=True):
         self._domain = self.domain.load()
-- 
2.43.0


From 6f76ef068e39e4f4de0f02baa3cefcba0a4947ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:59 +0000
Subject: [PATCH 34/43] fix: run with the scheduler of the object, whatever
 other objects have set

---
 metsim/metsim.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/metsim/metsim.py b/metsim/metsim.py
index bb75c94..faa6a9c 100644
--- a/metsim/metsim.py
+++ b/metsim/metsim.py
@@ -347,6 +347,11 @@ class MetSim(object):
         return xr.open_mfdataset(filenames)
 
     def run(self):
+        # other objects may have set another scheduler since this one was made
+        with dask.config.set(scheduler=self._client or self.params['scheduler']):
+            self._run()
+
+    def _run(self):
         self._validate_setup()
         os.makedirs(os.path.abspath(self.params['out_dir']), exist_ok=True)
         write_locks = {}
@@ -369,7 +374,8 @@ class MetSim(object):
         pool = nullcontext()
         if (self.params['scheduler'] in ['threading', 'threads'] and
                 dask.config.get('pool', None) is None):
-            pool = kwargs['pool'] = ThreadPoolExecutor(kwargs['num_workers'])
+            pool = kwargs['pool'] = ThreadPoolExecutor(
+                kwargs['num_workers'] or None)
         try:
             with pool:
                 persisted = dask.persist(delayed_objs, **kwargs)
-- 
2.43.0


From 79d82808c625eed36e93a4057cec429f22934c61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:17 +0000
Subject: [PATCH 35/43] fix: limit the cloud cover fraction to one

With lw_cloud = default the fraction derived from the transmittance exceeds
one on wet days with a small temperature range.
---
 metsim/methods/mtclim.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/metsim/methods/mtclim.py b/metsim/methods/mtclim.py
index 612c6b2..c71cc48 100644
--- a/metsim/methods/mtclim.py
+++ b/metsim/methods/mtclim.py
@@ -253,4 +253,5 @@ def tskc(tfmax, params):
     """
     if (params['lw_cloud'].upper() == 'CLOUD_DEARDORFF'):
         return 1. - tfmax
-    return np.sqrt((1. - tfmax) / 0.65)
+    # (a sky cannot be more than overcast)
+    return np.sqrt(np.minimum((1. - tfmax) / 0.65, 1.))
-- 
2.43.0


From ec53ff4c3507554cbb47d39a39449452c0c1f4c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:27 +0000
Subject: [PATCH 36/43] fix: compute days on which the sun is up for a few
 seconds only

The day may lie between two radiation steps, whose sum is then zero.
---
 metsim/physics.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/metsim/physics.py b/metsim/physics.py
index 815654a..369de5f 100644
--- a/metsim/physics.py
+++ b/metsim/physics.py
@@ -269,7 +269,8 @@ def solar_geom(elev: float, lat: float, lr: float) -> tuple:
         if daylength[i] and sum_flat_potrad > 0:
             tiny_rad_fract[i] /= sum_flat_potrad
 
-        if daylength[i]:
+        # (days of less than a minute may lie between two radiation steps)
+        if daylength[i] and sum_flat_potrad > 0:
             # Transmittance and potential radiation
             # averaged over daylength
             tt_max0[i] = sum_trans / sum_flat_potrad
-- 
2.43.0


From 0e9ac2c0c299982f306a1587aedf8dbdd9398e06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:59 +0000
Subject: [PATCH 37/43] fix: take the calendar of the forcings from the netCDF
 file

---
 metsim/io.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/metsim/io.py b/metsim/io.py
index b65843e..f1cf740 100644
--- a/metsim/io.py
+++ b/metsim/io.py
@@ -296,9 +296,14 @@ def read_netcdf(data_handle, domain=None, is_worker=False,
             ds[d] = np.arange(0, len(ds[d]))
 
     if 'time' in ds.coords:
-        if isinstance(ds.indexes['time'], xr.CFTimeIndex):
-            ds['time'] = ds.indexes['time'].to_datetimeindex()
-        ds['time'] = ds.indexes['time'].floor('D')
+        times = ds.indexes['time']
+        if isinstance(times, xr.CFTimeIndex):
+            calendar = times.calendar
+            ds['time'] = times.to_datetimeindex().floor('D')
+            # (MetSim goes by the calendar of the data)
+            ds['time'].encoding['calendar'] = calendar
+        else:
+            ds['time'] = times.floor('D')
 
     if start is not None or stop is not None:
         ds = ds.sel(time=slice(start, stop))
-- 
2.43.0


From 335a062a3bc84044aa2bb821affa52284e726abe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:04 +0000
Subject: [PATCH 38/43] fix: accept in-memory forcings whose times are not
 midnights or are of other calendars

---
 metsim/io.py | 27 +++++++++++++++++++--------
 1 file changed, 19 insertions(+), 8 deletions(-)

diff --git a/metsim/io.py b/metsim/io.py
index f1cf740..bb9e023 100644
--- a/metsim/io.py
+++ b/metsim/io.py
@@ -266,6 +266,18 @@ def read_ascii(data_handle, domain=None, is_worker=False,
     return ds
 
 
+def _floor_times(ds: xr.Dataset) -> xr.Dataset:
+    """Mark the days by their start, as the rest of MetSim does"""
+    times = ds.indexes['time']
+    if isinstance(times, xr.CFTimeIndex):
+        ds = ds.assign_coords(time=times.to_datetimeindex().floor('D'))
+        # (MetSim goes by the calendar of the data)
+        ds['time'].encoding['calendar'] = times.calendar
+    else:
+        ds = ds.assign_coords(time=times.floor('D'))
+    return ds
+
+
 def read_netcdf(data_handle, domain=None, is_worker=False,
                 start=None, stop=None, calendar='standard',
                 var_dict=None) -> xr.Dataset:
@@ -296,14 +308,7 @@ def read_netcdf(data_handle, domain=None, is_worker=False,
             ds[d] = np.arange(0, len(ds[d]))
 
     if 'time' in ds.coords:
-        times = ds.indexes['time']
-        if isinstance(times, xr.CFTimeIndex):
-            calendar = times.calendar
-            ds['time'] = times.to_datetimeindex().floor('D')
-            # (MetSim goes by the calendar of the data)
-            ds['time'].encoding['calendar'] = calendar
-        else:
-            ds['time'] = times.floor('D')
+        ds = _floor_times(ds)
 
     if start is not None or stop is not None:
         ds = ds.sel(time=slice(start, stop))
@@ -324,6 +329,12 @@ def read_data(data_handle, domain=None, is_worker=False,
         varlist = list(var_dict.values())
     data_handle = data_handle[varlist]
 
+    if 'time' in data_handle.coords:
+        encoding = data_handle['time'].encoding
+        data_handle = _floor_times(data_handle)
+        data_handle['time'].encoding = {**encoding,
+                                        **data_handle['time'].encoding}
+
     if domain is not None:
         data_handle = data_handle.sel({k: domain[k]
                                        for k in list(domain.dims.keys())
-- 
2.43.0


From f881ba47f88e23b49c4d747fd4677aca09767788 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:04 +0000
Subject: [PATCH 39/43] fix: keep the rain of storms shorter than a minute

---
 metsim/disaggregate.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/metsim/disaggregate.py b/metsim/disaggregate.py
index 583acaf..cb4fd70 100644
--- a/metsim/disaggregate.py
+++ b/metsim/disaggregate.py
@@ -327,6 +327,9 @@ def prec(prec: pd.Series, t_min: pd.Series, ts: float, params: dict,
                 # Begin with relative intensity
                 prec_day[t_plus] = np.linspace(0, 1.0, len(t_plus))
                 prec_day[t_minus] = np.linspace(1.0, 0, len(t_minus))
+                if not prec_day.any():
+                    # No minute is within the storm
+                    prec_day[min(int(t_pk), ts_per_day - 1)] = 1.0
 
                 # Scale to input precipitation
                 prec_day = (P / np.sum(prec_day)) * prec_day
-- 
2.43.0


From d7ba781234208f2facbcd09c48a5eda7f6d0bb0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:04 +0000
Subject: [PATCH 40/43] fix: let dask replace distributed workers that died

---
 metsim/metsim.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/metsim/metsim.py b/metsim/metsim.py
index faa6a9c..c6ab21a 100644
--- a/metsim/metsim.py
+++ b/metsim/metsim.py
@@ -348,7 +348,10 @@ class MetSim(object):
 
     def run(self):
         # other objects may have set another scheduler since this one was made
-        with dask.config.set(scheduler=self._client or self.params['scheduler']):
+        # (a client may not be put in the configuration of dask, which could not
+        # be sent to the processes that replace dead workers any more)
+        with (self._client.as_current() if self._client else
+              dask.config.set(scheduler=self.params['scheduler'])):
             self._run()
 
     def _run(self):
-- 
2.43.0


From 648e80d88b805252cc9f78aee6be4f2d7c0dc8dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:04 +0000
Subject: [PATCH 41/43] fix: run with the parameters that the object has when
 it is run

---
 metsim/metsim.py | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/metsim/metsim.py b/metsim/metsim.py
index c6ab21a..e84632b 100644
--- a/metsim/metsim.py
+++ b/metsim/metsim.py
@@ -232,6 +232,9 @@ class MetSim(object):
         else:
             # If not in verbose mode, create a dummy function
             self.progress_bar = lambda x: x
+        self._configure_output()
+
+    def _configure_output(self):
         # Create time vector(s)
         self._times = self._get_output_times(
             freq=self.params['out_freq'],
@@ -244,9 +247,7 @@ class MetSim(object):
     def _update_unit_attrs(self, out_vars):
         for k, v in out_vars.items():
             if 'units' in v.keys():
-                if v['units'] in converters[k].keys():
-                    self.attrs[k]['units'] = v['units']
-                else:
+                if v['units'] not in converters[k].keys():
                     self.logger.warn(
                         f'Could not find unit conversion for {k} to {v["units"]}!'
                         f' We will use the default units of'
@@ -254,6 +255,7 @@ class MetSim(object):
                     v['units'] = available_outputs[k]['units']
             else:
                 v['units'] = available_outputs[k]['units']
+            self.attrs[k]['units'] = v['units']
 
     def _validate_force_times(self, force_times):
         for p, i in [('start', 0), ('stop', -1)]:
@@ -355,7 +357,11 @@ class MetSim(object):
             self._run()
 
     def _run(self):
+        # the parameters may have been modified since this object was made
+        self._close_inputs()
+        self._domain = self._met_data = self._state = None
         self._validate_setup()
+        self._configure_output()
         os.makedirs(os.path.abspath(self.params['out_dir']), exist_ok=True)
         write_locks = {}
         make_lock = get_write_lock
@@ -386,9 +392,7 @@ class MetSim(object):
                 dask.compute(persisted)
         finally:
             self.logger.info('Cleaning up...')
-            for ds in (self._domain, self._met_data, self._state):
-                if ds is not None:
-                    ds.close()
+            self._close_inputs()
             try:
                 self._client.cluster.close()
                 self._client.close()
@@ -407,6 +411,11 @@ class MetSim(object):
             self._met_data.close()
             self._state.close()
 
+    def _close_inputs(self):
+        for ds in (self._domain, self._met_data, self._state):
+            if ds is not None:
+                ds.close()
+
     def setup_netcdf_output(self, filename, times):
         '''setup a single netcdf file'''
         with Dataset(filename, mode="w") as ncout:
-- 
2.43.0


From e86a005b1e5171c903a7c9f4d86cd4adc3fb2cbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:25 +0000
Subject: [PATCH 42/43] fix: scale given longwave over the local days in UTC
 runs

The daily longwave of an input is the mean over a local day of the cell, like
every other daily value. With utc_offset it was imposed on the days of UTC
instead, so that the longwave of a UTC run was not that of the local run.
---
 metsim/disaggregate.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/metsim/disaggregate.py b/metsim/disaggregate.py
index cb4fd70..255524a 100644
--- a/metsim/disaggregate.py
+++ b/metsim/disaggregate.py
@@ -594,10 +594,15 @@ def longwave(air_temp: np.array, vapor_pressure: np.array,
     lwrad = emissivity * cnst.STEFAN_B * np.power(air_temp, 4)
     if daily_lw is not  None:
         ts = int(params['time_step'])
-        ts_per_day = int(cnst.HOURS_PER_DAY * cnst.MIN_PER_HOUR / ts)
-        factor = np.mean(lwrad.reshape(-1, ts_per_day), axis=1).flatten()
+        offset = 0
+        if params['utc_offset']:
+            offset = int((params["lon"] / cnst.DEG_PER_REV) * cnst.MIN_PER_DAY)
+        # the daily values are means over the local days of the cell
+        factor = np.roll(np.repeat(lwrad, ts), offset)
+        factor = np.mean(factor.reshape(-1, cnst.MIN_PER_DAY), axis=1)
         factor = daily_lw.values / factor
-        factor = np.repeat(factor, ts_per_day)
+        factor = np.roll(np.repeat(factor, cnst.MIN_PER_DAY), -offset)
+        factor = np.mean(factor.reshape(-1, ts), axis=1)
         lwrad *= factor
     return lwrad
 
-- 
2.43.0


From 877fc8c9b2fac17d02893ffeab827d28bf7530a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:58 +0000
Subject: [PATCH 43/43] fix: run again with a distributed scheduler

run() closes the client, so that a second run of the same object failed; an
object whose scheduler was set to a distributed one later had no client.
---
 metsim/metsim.py | 40 ++++++++++++++++++++++++++--------------
 1 file changed, 26 insertions(+), 14 deletions(-)

diff --git a/metsim/metsim.py b/metsim/metsim.py
index e84632b..74dbd06 100644
--- a/metsim/metsim.py
+++ b/metsim/metsim.py
@@ -208,18 +208,11 @@ class MetSim(object):
             if self.params['scheduler'] in DASK_CORE_SCHEDULERS:
                 dask.config.set(scheduler=self.params['scheduler'])
             else:
-                from distributed import Client, progress
-                if 'distributed' == self.params['scheduler']:
-                    self._client = Client(
-                        n_workers=self.params['num_workers'],
-                        threads_per_worker=1)
-                    if self.params['verbose'] == logging.DEBUG:
-                        self.progress_bar = progress
-                elif os.path.isfile(self.params['scheduler']):
-                    self._client = Client(
-                        scheduler_file=self.params['scheduler'])
-                else:
-                    self._client = Client(self.params['scheduler'])
+                from distributed import progress
+                self._make_client()
+                if ('distributed' == self.params['scheduler'] and
+                        self.params['verbose'] == logging.DEBUG):
+                    self.progress_bar = progress
         else:
             dask.config.set(scheduler=self.params['scheduler'])
 
@@ -234,6 +227,19 @@ class MetSim(object):
             self.progress_bar = lambda x: x
         self._configure_output()
 
+    def _make_client(self):
+        """Connect to the dask cluster that the parameters ask for"""
+        from distributed import Client
+        if 'distributed' == self.params['scheduler']:
+            self._client = Client(
+                n_workers=self.params['num_workers'],
+                threads_per_worker=1)
+        elif os.path.isfile(self.params['scheduler']):
+            self._client = Client(
+                scheduler_file=self.params['scheduler'])
+        else:
+            self._client = Client(self.params['scheduler'])
+
     def _configure_output(self):
         # Create time vector(s)
         self._times = self._get_output_times(
@@ -352,8 +358,14 @@ class MetSim(object):
         # other objects may have set another scheduler since this one was made
         # (a client may not be put in the configuration of dask, which could not
         # be sent to the processes that replace dead workers any more)
-        with (self._client.as_current() if self._client else
-              dask.config.set(scheduler=self.params['scheduler'])):
+        if self.params['scheduler'] in DASK_CORE_SCHEDULERS:
+            current = dask.config.set(scheduler=self.params['scheduler'])
+        else:
+            # an earlier run has closed the client that it used
+            if self._client is None or self._client.status == 'closed':
+                self._make_client()
+            current = self._client.as_current()
+        with current:
             self._run()
 
     def _run(self):
-- 
2.43.0

