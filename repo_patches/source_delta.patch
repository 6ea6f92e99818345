From e1b2de21f477dc22217a01dccf1d1c11f620c150 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:24 +0000
Subject: [PATCH 01/11] fix: hle1 reports non-convergence and handles neutral
 and calm air

The status was computed from the loop counter after range(ITMAX), which can
never reach ITMAX, so a failed iteration was reported as success. In neutral
conditions the loop counter was never set and hle1 raised UnboundLocalError.
---
 pysnobal/point/libsnobal.py | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/pysnobal/point/libsnobal.py b/pysnobal/point/libsnobal.py
index 0942bd1..e672694 100644
--- a/pysnobal/point/libsnobal.py
+++ b/pysnobal/point/libsnobal.py
@@ -257,8 +257,11 @@ def hle1(press, air_temp, surface_temp, za, ea, es, zq, wind_speed, zu, z0,
     dens = gas_density(press, MOL_AIR, virtual_temperature(
         math.sqrt(air_temp * surface_temp), math.sqrt(ea * es), press))
 
-    # if neutral stability ignore starting values and calculate
-    if air_temp == surface_temp:
+    # if neutral stability ignore starting values and calculate, calm air
+    # does not exchange anything so there is nothing to iterate on either
+    if air_temp == surface_temp or wind_speed == 0:
+
+        ier = 0
 
         # starting value, assume neutral stability, so psi-functions
         # are all zero
@@ -270,7 +273,8 @@ def hle1(press, air_temp, surface_temp, za, ea, es, zq, wind_speed, zu, z0,
     # if not neutral stability, iterate on Obukhov stability
     # length to find solution
     else:
-        # it = 0
+        # no convergence unless the iteration below finds it
+        ier = -1
         lo = 1e500
 
         # initialize ustar and factor
@@ -310,11 +314,8 @@ def hle1(press, air_temp, surface_temp, za, ea, es, zq, wind_speed, zu, z0,
 
             # it += 1
             if (np.abs(diff) < THRESH) and (np.abs(diff/lo) < THRESH):
+                ier = 0
                 break
-            # if it > ITMAX:
-            #     break
-
-    ier = -1 if (it >= ITMAX) else 0
 
     xlh = lh_vap(surface_temp)
     if surface_temp <= FREEZE:
-- 
2.43.0


From ae14c6433837bbb6156d476c375f322c0e8ce2da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:24 +0000
Subject: [PATCH 02/11] fix: vapor pressure and turbulent transfer functions no
 longer modify their arguments

satw_np and sati_np overwrote negative temperatures in the caller's array and
hle1 added the lapse rate correction in place when given an array.
---
 pysnobal/point/libsnobal.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pysnobal/point/libsnobal.py b/pysnobal/point/libsnobal.py
index e672694..ab0c926 100644
--- a/pysnobal/point/libsnobal.py
+++ b/pysnobal/point/libsnobal.py
@@ -37,7 +37,7 @@ def satw_np(tk):
     """
 
     # remove bad values
-    tk[tk < 0] = np.nan
+    tk = np.where(tk < 0, np.nan, tk)
 
     btk = BOIL/tk
     x = -7.90298*(btk - 1.0) + 5.02808*np.log(btk)/LOG_10 - \
@@ -61,7 +61,7 @@ def sati_np(tk):
     """
 
     # remove bad values
-    tk[tk < 0] = np.nan
+    tk = np.where(tk < 0, np.nan, tk)
 
     # preallocate
     x = np.empty(tk.shape)
@@ -249,7 +249,7 @@ def hle1(press, air_temp, surface_temp, za, ea, es, zq, wind_speed, zu, z0,
     q_diff = qa - qs
 
     # convert temperature to potential temperature
-    air_temp += DALR * za
+    air_temp = air_temp + DALR * za
     t_diff = air_temp - surface_temp
 
     # air density at press, virtual temp of geometric mean
-- 
2.43.0


From 615511b80f48f71b9c7bc9d56aa3ddf9544691ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:24 +0000
Subject: [PATCH 03/11] fix: honor the relative_heights option

The option was read from the configuration but heights were always treated
as heights above the ground.
---
 pysnobal/point/snobal.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pysnobal/point/snobal.py b/pysnobal/point/snobal.py
index e0d93a5..f7a2f18 100644
--- a/pysnobal/point/snobal.py
+++ b/pysnobal/point/snobal.py
@@ -58,7 +58,7 @@ class Snobal(object):
 
         # get measurement-height record
         self.measurement_heights = meas_heights
-        self.relative_hts = False
+        self.relative_hts = self.params.get('relative_heights', False)
 
         self.time_since_out = 0
 
-- 
2.43.0


From aa0646add6aebe72dbd068ef210bf05fd262f6cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:24 +0000
Subject: [PATCH 04/11] fix: initialize the lower layer temperature from the
 initial snowcover

An initial snowcover deep enough for two layers left the lower layer at 0 K
and the first timestep failed with ZeroDivisionError.
---
 pysnobal/point/snobal.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pysnobal/point/snobal.py b/pysnobal/point/snobal.py
index f7a2f18..23c3c56 100644
--- a/pysnobal/point/snobal.py
+++ b/pysnobal/point/snobal.py
@@ -1214,6 +1214,8 @@ class Snobal(object):
             small_threshold=self.tstep_info[SMALL_TSTEP]['threshold'])
 
         if from_record:
+            # the lower layer starts at the average snowcover temperature
+            self.snow_state.t_s_l = self.snow_records['t_s']
             self.snow_state.set_from_dict(self.snow_records)
             # self.snow_state.z_s = self.snow_records['z_s']
             # self.snow_state.rho = self.snow_records['rho']
-- 
2.43.0


From dd20648b53116be324dad0b47bd2f8ce690a536c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:24 +0000
Subject: [PATCH 05/11] fix: convert the initial snow temperatures to Kelvin

The initial snow properties are documented and configured in Celsius but were
passed to the model unconverted, so any initial snowcover failed.
---
 pysnobal/pysnobal.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/pysnobal/pysnobal.py b/pysnobal/pysnobal.py
index 0787d2b..7a3e294 100644
--- a/pysnobal/pysnobal.py
+++ b/pysnobal/pysnobal.py
@@ -286,10 +286,15 @@ class PySnobal():
         input_data1 = InputData(input_data[self.input_data.index[0]])
         del input_data[self.input_data.index[0]]
 
+        # initial snow temperatures are given in Celsius
+        initial_conditions = dict(self.config['initial_snow_properties'])
+        initial_conditions['t_s_0'] += FREEZE
+        initial_conditions['t_s'] += FREEZE
+
         self.snobal = Snobal(
             self.params,
             self.tstep_info,
-            self.config['initial_snow_properties'],
+            initial_conditions,
             self.measurement_heights,
             self.output_mode
         )
-- 
2.43.0


From ef2d445b464db907ac2a3ccd49ecfb9fcedae2ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:24 +0000
Subject: [PATCH 06/11] fix: exit with a failure status when the configuration
 has errors

---
 pysnobal/pysnobal.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pysnobal/pysnobal.py b/pysnobal/pysnobal.py
index 7a3e294..c7eb149 100644
--- a/pysnobal/pysnobal.py
+++ b/pysnobal/pysnobal.py
@@ -76,7 +76,7 @@ class PySnobal():
         if len(errors) > 0:
             print("Errors in the config file. See configuration"
                   " status report above.")
-            sys.exit()
+            sys.exit(1)
 
     def parse_time_steps(self):
         """
-- 
2.43.0


From ae24745c6ca18f9f43a6bc62a04ffff3f396c410 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:24 +0000
Subject: [PATCH 07/11] fix: sort the input data before taking its time step

With unsorted records the step could be wrong or negative and the window of
used records was cut at the wrong end.
---
 pysnobal/pysnobal.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pysnobal/pysnobal.py b/pysnobal/pysnobal.py
index c7eb149..0fe685a 100644
--- a/pysnobal/pysnobal.py
+++ b/pysnobal/pysnobal.py
@@ -232,8 +232,8 @@ class PySnobal():
             self.config['time']['time_zone'])
 
         # get the time delta of the data
-        tdelta = input_data.index.to_series().diff().dropna().unique()[0]
         input_data.sort_index(inplace=True)
+        tdelta = input_data.index.to_series().diff().dropna().unique()[0]
 
         # clip to the start and end date
         # Add one time step as each Snobal timestep requires two input
-- 
2.43.0


From 7edd8f4829894cf879b7ffd6ab5269047f52b729 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:24 +0000
Subject: [PATCH 08/11] fix: use the data timestep and reject timesteps that do
 not divide evenly

The documented data timestep was ignored, and a normal timestep shorter than
it or timesteps that do not divide evenly silently dropped part of every data
timestep, although the configuration requires even division.
---
 pysnobal/pysnobal.py | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/pysnobal/pysnobal.py b/pysnobal/pysnobal.py
index 0fe685a..fb76081 100644
--- a/pysnobal/pysnobal.py
+++ b/pysnobal/pysnobal.py
@@ -124,6 +124,15 @@ class PySnobal():
             self.config['model']['small_time_step'],
         ]
 
+        # time step of the input data
+        data_time_step = self.config['time']['time_step']
+
+        for longer, shorter in zip([data_time_step] + time_step, time_step):
+            if shorter <= 0 or longer % shorter != 0:
+                raise ValueError(
+                    'Time step of {} min is not evenly divided by time step '
+                    'of {} min'.format(longer, shorter))
+
         tstep_info = []
         config_names = ['norm', 'medium', 'small']
         for i in range(3):
@@ -143,15 +152,16 @@ class PySnobal():
 
         # normal time step
         tstep_info[NORMAL_TSTEP].update({
-            'intervals': 1,
-            'intervals_per_timestep': 1,
+            'intervals': int(data_time_step / time_step[NORMAL_TSTEP]),
+            'intervals_per_timestep': int(data_time_step /
+                                          time_step[NORMAL_TSTEP]),
         })
 
         # medium time step
         tstep_info[MEDIUM_TSTEP].update({
             'intervals': int(time_step[NORMAL_TSTEP] /
                              time_step[MEDIUM_TSTEP]),
-            'intervals_per_timestep': int(time_step[NORMAL_TSTEP] /
+            'intervals_per_timestep': int(data_time_step /
                                           time_step[MEDIUM_TSTEP]),
         })
 
@@ -163,7 +173,7 @@ class PySnobal():
         tstep_info[SMALL_TSTEP].update({
             'intervals': int(time_step[MEDIUM_TSTEP] /
                              time_step[SMALL_TSTEP]),
-            'intervals_per_timestep': int(time_step[NORMAL_TSTEP] /
+            'intervals_per_timestep': int(data_time_step /
                                           time_step[SMALL_TSTEP]),
         })
 
-- 
2.43.0


From 7d9dc81aad48bd419b1282a7d651d4316c302a05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:47 +0000
Subject: [PATCH 09/11] fix: a snowpack melted to no depth leaves no depth
 behind

---
 pysnobal/point/snow_state.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pysnobal/point/snow_state.py b/pysnobal/point/snow_state.py
index 0457169..0515270 100644
--- a/pysnobal/point/snow_state.py
+++ b/pysnobal/point/snow_state.py
@@ -268,8 +268,9 @@ class SnowState():
 
         """
 
-        if self.m_s <= self.small_threshold:
-            # less than minimum layer mass, so treat as no snowcover
+        if self.m_s <= self.small_threshold or self.z_s <= 0:
+            # less than minimum layer mass or no depth left, so treat as no
+            # snowcover
             # can change to the set zeros
             z_s_0 = z_s_l = 0
 
-- 
2.43.0


From 967096b54af7c7e1616790034e9dd3c5b30c29fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:30 +0000
Subject: [PATCH 10/11] fix: a snowpack that vanishes in a snowfall keeps no
 liquid water

---
 pysnobal/point/snobal.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/pysnobal/point/snobal.py b/pysnobal/point/snobal.py
index 23c3c56..caf5182 100644
--- a/pysnobal/point/snobal.py
+++ b/pysnobal/point/snobal.py
@@ -613,11 +613,14 @@ class Snobal(object):
                 # Determine the additional liquid water that's in
                 # the snowfall, and then add its mass to liquid
                 # water in the whole snowcover.
-                h2o_vol_snow = self.input1.h2o_sat_snow * \
-                    self.snow_state.max_h2o_vol
-                self.snow_state.h2o += h2o_left(self.input1.z_snow,
-                                                self.input1.rho_snow,
-                                                h2o_vol_snow)
+                # A pack that is gone has given all its mass to the
+                # total liquid water and keeps no water of its own.
+                if self.snow_state.layer_count > 0:
+                    h2o_vol_snow = self.input1.h2o_sat_snow * \
+                        self.snow_state.max_h2o_vol
+                    self.snow_state.h2o += h2o_left(self.input1.z_snow,
+                                                    self.input1.rho_snow,
+                                                    h2o_vol_snow)
 
             elif self.input1.m_snow > 0:
 
-- 
2.43.0


From 4afe86289f0a295bc5ecaaef1bddf4f519cc5b47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:02:02 +0000
Subject: [PATCH 11/11] fix: a data timestep no longer changes the input record
 it is given

---
 pysnobal/point/snobal.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pysnobal/point/snobal.py b/pysnobal/point/snobal.py
index caf5182..ca7fa88 100644
--- a/pysnobal/point/snobal.py
+++ b/pysnobal/point/snobal.py
@@ -1,5 +1,6 @@
 import math
 import warnings
+from copy import copy
 
 import numpy as np
 
@@ -118,8 +119,9 @@ class Snobal(object):
         # pd.to_datetime('1995-10-12 10:00:00-07:00'):
         #     self.current_datetime
 
-        # store the inputs for later
-        self.input1 = input1
+        # store the inputs for later, the first record is moved through the
+        # data timestep and must not change for the caller
+        self.input1 = copy(input1)
         self.input2 = input2
 
         # Compute deltas for the climate input parameters over the
-- 
2.43.0

