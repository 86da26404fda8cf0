From 40e10e53cd1537254f8140f911a86ed56d9ab256 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:01 +0000
Subject: [PATCH 01/20] fix: restart from an output file, which has a time
 dimension

---
 src/wam2layers/tracking/backtrack.py    | 2 +-
 src/wam2layers/tracking/forwardtrack.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/wam2layers/tracking/backtrack.py b/src/wam2layers/tracking/backtrack.py
index c81d5f7..0f1e253 100644
--- a/src/wam2layers/tracking/backtrack.py
+++ b/src/wam2layers/tracking/backtrack.py
@@ -138,7 +138,7 @@ def initialize(config_file: Config) -> tuple[Config, xr.Dataset, DatasetCoordina
     if config.restart:
         # Reload last state from existing output
         date = config.tracking_end_date
-        ds = xr.open_dataset(output_path(date, config))
+        ds = xr.open_dataset(output_path(date, config)).squeeze("time")
         output["s_track_upper_restart"].values = ds.s_track_upper_restart.values
         output["s_track_lower_restart"].values = ds.s_track_lower_restart.values
 
diff --git a/src/wam2layers/tracking/forwardtrack.py b/src/wam2layers/tracking/forwardtrack.py
index c3cf2ae..993bed3 100644
--- a/src/wam2layers/tracking/forwardtrack.py
+++ b/src/wam2layers/tracking/forwardtrack.py
@@ -141,7 +141,7 @@ def initialize(config_file: Config) -> tuple[Config, xr.Dataset, DatasetCoordina
     if config.restart:
         # Reload last state from existing output
         date = config.tracking_start_date
-        ds = xr.open_dataset(output_path(date, config))
+        ds = xr.open_dataset(output_path(date, config)).squeeze("time")
         output["s_track_upper_restart"].values = ds.s_track_upper_restart.values
         output["s_track_lower_restart"].values = ds.s_track_lower_restart.values
 
-- 
2.43.0


From 0752603a53204ebf52c01ce3717a3d9cd24c76d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:01 +0000
Subject: [PATCH 02/20] fix: cells without any horizontal flux no longer turn
 into NaN

---
 src/wam2layers/tracking/core.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/wam2layers/tracking/core.py b/src/wam2layers/tracking/core.py
index ab99bda..dbda23d 100644
--- a/src/wam2layers/tracking/core.py
+++ b/src/wam2layers/tracking/core.py
@@ -154,8 +154,8 @@ def stabilize_fluxes(F, S, progress_tracker: ProgressTracker, config: Config, t)
         progress_tracker.track_stability_correction(fy_stable, fy_abs, config, t)
 
         # Get rid of any nan values
-        fx_stable.fillna(0)
-        fy_stable.fillna(0)
+        fx_stable = fx_stable.fillna(0)
+        fy_stable = fy_stable.fillna(0)
 
         # Re-instate the sign and convert back to flux instead of accumulation
         F["fx_" + level] = np.sign(fx) * fx_stable / config.timestep
-- 
2.43.0


From b5ec6b4874c7f2093faf6f4ef6d52d37dc1204a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:01 +0000
Subject: [PATCH 03/20] fix: commands started together can create the same
 parent folder

---
 src/wam2layers/config.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/wam2layers/config.py b/src/wam2layers/config.py
index 5c67480..5254dc7 100644
--- a/src/wam2layers/config.py
+++ b/src/wam2layers/config.py
@@ -535,7 +535,7 @@ class Config(BaseModel):
         """Create output dirs if they don't exist yet."""
         if isinstance(path, Path) and not path.exists():
             logger.info(f"Creating output folder {path}")
-            path.mkdir(parents=True)
+            path.mkdir(parents=True, exist_ok=True)
         return path
 
     @model_validator(mode="before")
-- 
2.43.0


From b88452f068598eb8f2a2f0dd41c4d776f6935c8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:01 +0000
Subject: [PATCH 04/20] fix: do not store HTTP error pages or encoded bytes as
 downloaded files

---
 src/wam2layers/download.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/wam2layers/download.py b/src/wam2layers/download.py
index a55d4b1..cba2fa2 100644
--- a/src/wam2layers/download.py
+++ b/src/wam2layers/download.py
@@ -69,6 +69,8 @@ def download(url, destination, local_filename=None):
 
     logging.info(f"Downloading {local_filename}")
     with requests.get(url, stream=True) as r:
+        r.raise_for_status()
+        r.raw.decode_content = True  # undo any transport encoding, e.g. gzip
         with open(local_path, "wb") as f:
             shutil.copyfileobj(r.raw, f)
 
-- 
2.43.0


From 59b7fa7db018dca005cc3135cbd1b7f370bc1836 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:01 +0000
Subject: [PATCH 05/20] fix: add CMIP condensation to precipitation instead of
 subtracting it

---
 src/wam2layers/preprocessing/cmip.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/wam2layers/preprocessing/cmip.py b/src/wam2layers/preprocessing/cmip.py
index cd1935e..af28c03 100644
--- a/src/wam2layers/preprocessing/cmip.py
+++ b/src/wam2layers/preprocessing/cmip.py
@@ -55,7 +55,7 @@ def get_input_data(datetime: CfDateTime, config: Config):
     data["precip"] = load_cmip_var("tp", datetime, config)
     data["evap"] = load_cmip_var("e", datetime, config)
 
-    data["precip"] = np.maximum(data["precip"], 0) + np.minimum(data["evap"], 0)
+    data["precip"] = np.maximum(data["precip"], 0) - np.minimum(data["evap"], 0)
     data["evap"] = np.abs(np.maximum(data["evap"], 0))
 
     return data
-- 
2.43.0


From 3d6cb6b154039729b886ae60764e9886c8fd1555 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:01 +0000
Subject: [PATCH 06/20] fix: store preprocessed CMIP data with decreasing
 latitude

---
 src/wam2layers/preprocessing/cmip.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/wam2layers/preprocessing/cmip.py b/src/wam2layers/preprocessing/cmip.py
index af28c03..94928e4 100644
--- a/src/wam2layers/preprocessing/cmip.py
+++ b/src/wam2layers/preprocessing/cmip.py
@@ -111,6 +111,9 @@ def load_cmip_var(variable: str, datetime: CfDateTime, config: Config):
         if old_name in data.coords:
             data = data.rename({old_name: new_name})
 
+    # The tracking code relies on decreasing latitude
+    data = data.sortby("latitude", ascending=False)
+
     return data.sel(time=datetime)
 
 
-- 
2.43.0


From 783c56090d04a9605f56b8dc5278dc4f164eef88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:01 +0000
Subject: [PATCH 07/20] fix: use the latitude spacing for the latitude extent
 of grid cells

---
 src/wam2layers/utils/grid.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/wam2layers/utils/grid.py b/src/wam2layers/utils/grid.py
index 812eb15..6f14f95 100644
--- a/src/wam2layers/utils/grid.py
+++ b/src/wam2layers/utils/grid.py
@@ -51,8 +51,8 @@ def get_grid_info(ds):
     dy_deg = np.abs(latitude[1] - latitude[0])  # [degrees]
 
     # Calculate area TODO check this calculation!
-    lat_n = np.minimum(90.0, latitude + 0.5 * dx_deg)
-    lat_s = np.maximum(-90.0, latitude - 0.5 * dx_deg)
+    lat_n = np.minimum(90.0, latitude + 0.5 * dy_deg)
+    lat_s = np.maximum(-90.0, latitude - 0.5 * dy_deg)
 
     a = (
         np.pi
@@ -64,8 +64,8 @@ def get_grid_info(ds):
 
     # Calculate faces
     dy = dy_deg * dg  # [m] grid spacing in meridional direction
-    dx_n_gridcell = dx_deg * dg * np.cos((latitude + dx_deg / 2) * np.pi / 180)
-    dx_s_gridcell = dx_deg * dg * np.cos((latitude - dx_deg / 2) * np.pi / 180)
+    dx_n_gridcell = dx_deg * dg * np.cos((latitude + dy_deg / 2) * np.pi / 180)
+    dx_s_gridcell = dx_deg * dg * np.cos((latitude - dy_deg / 2) * np.pi / 180)
     dx = 0.5 * (dx_n_gridcell + dx_s_gridcell)  # [m] grid spacing in zonal direction
     return a, dy, dx[:, None]
 
-- 
2.43.0


From 07b98774dd7956420591b38b692a5b4799173449 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:01 +0000
Subject: [PATCH 08/20] fix: allow running from the configuration archived in
 the output folder

---
 src/wam2layers/cli.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/wam2layers/cli.py b/src/wam2layers/cli.py
index 6c6cf71..e6d97c9 100644
--- a/src/wam2layers/cli.py
+++ b/src/wam2layers/cli.py
@@ -63,7 +63,10 @@ def setup_logging(log_path: Union[str, Path], debug: bool):
 
 def _copy_config_yaml(yaml_path, target_path):
     """Copy config file to the output path."""
-    shutil.copy(yaml_path, target_path)
+    try:
+        shutil.copy(yaml_path, target_path)
+    except shutil.SameFileError:
+        pass  # already running from the copy in the output path
 
 
 def get_wam_version():
-- 
2.43.0


From 2325802a1a5a94b7a95fd8a69561c224a54c2a24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:01 +0000
Subject: [PATCH 09/20] fix: numerically gained water counts negative in the
 tagging closure

---
 src/wam2layers/utils/profiling.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/wam2layers/utils/profiling.py b/src/wam2layers/utils/profiling.py
index 1c2ef64..df635f8 100644
--- a/src/wam2layers/utils/profiling.py
+++ b/src/wam2layers/utils/profiling.py
@@ -106,7 +106,7 @@ class ProgressTracker:
             tracked_percentage
             + in_atmos_percentage
             + lost_percentage
-            + gained_percentage
+            - gained_percentage
             + boundary_percentage
         )
 
-- 
2.43.0


From 4b0373c9566c443ec53bde68bfbfe4908b4b1d0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:18 +0000
Subject: [PATCH 10/20] fix: an interrupted run no longer leaves incomplete
 output files

---
 src/wam2layers/tracking/io.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/wam2layers/tracking/io.py b/src/wam2layers/tracking/io.py
index ba93247..99efff6 100644
--- a/src/wam2layers/tracking/io.py
+++ b/src/wam2layers/tracking/io.py
@@ -1,4 +1,5 @@
 import logging
+import os
 import time
 import traceback
 from copy import deepcopy
@@ -215,4 +216,8 @@ def write_output(
     for var in output.data_vars:
         if var != "time_bnds":
             output[var] = output[var].astype("float32")
-    output.to_netcdf(path, encoding=encoding)
+
+    # Only a complete file gets its final name, also if the run is interrupted here
+    temporary_path = f"{path}.tmp"
+    output.to_netcdf(temporary_path, encoding=encoding)
+    os.replace(temporary_path, path)
-- 
2.43.0


From d126fa00294f943daa4bdfbbb98922c29c2c8bc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:18 +0000
Subject: [PATCH 11/20] fix: interrupted preprocessing no longer leaves
 incomplete day files

---
 src/wam2layers/preprocessing/shared.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/wam2layers/preprocessing/shared.py b/src/wam2layers/preprocessing/shared.py
index 0c60073..6047ef8 100644
--- a/src/wam2layers/preprocessing/shared.py
+++ b/src/wam2layers/preprocessing/shared.py
@@ -1,5 +1,6 @@
 """General preprocessing routine."""
 
+import os
 import warnings
 from itertools import product
 from multiprocessing.pool import Pool
@@ -226,6 +227,7 @@ def preprocess(
         # Save preprocessed data
         filename = f"{datetime.strftime('%Y-%m-%d')}_fluxes_storages.nc"
         output_path = config.preprocessed_data_folder / filename
+        temporary_path = output_path.with_name(f"{filename}.tmp")
 
         if is_new_day:
             comp = dict(zlib=True, complevel=8)
@@ -233,11 +235,14 @@ def preprocess(
             time_encoding = {"units": "seconds since 1900-01-01"}
             encoding["time"] = time_encoding
             ds.to_netcdf(
-                output_path, unlimited_dims=["time"], mode="w", encoding=encoding
+                temporary_path, unlimited_dims=["time"], mode="w", encoding=encoding
             )
 
         else:
-            append_to_netcdf(output_path, ds, expanding_dim="time")
+            append_to_netcdf(temporary_path, ds, expanding_dim="time")
+
+    # Only a complete day gets its final name, also if preprocessing is interrupted
+    os.replace(temporary_path, output_path)
 
 
 def group_timestamps_by_day(daterange: xr.CFTimeIndex) -> dict[int, xr.CFTimeIndex]:
-- 
2.43.0


From 90b82e09a64ae4d8d6d0167e5ee9177d3c31b214 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:18 +0000
Subject: [PATCH 12/20] fix: runs in one process no longer reuse cached input
 of earlier runs

---
 src/wam2layers/preprocessing/shared.py  | 5 +++++
 src/wam2layers/tracking/backtrack.py    | 2 ++
 src/wam2layers/tracking/forwardtrack.py | 2 ++
 src/wam2layers/tracking/io.py           | 5 +++++
 4 files changed, 14 insertions(+)

diff --git a/src/wam2layers/preprocessing/shared.py b/src/wam2layers/preprocessing/shared.py
index 6047ef8..ec900df 100644
--- a/src/wam2layers/preprocessing/shared.py
+++ b/src/wam2layers/preprocessing/shared.py
@@ -111,6 +111,11 @@ def prep_experiment(
     """
     config = Config.from_yaml(config_file)
 
+    # Forget input data of earlier runs, which may have been regenerated since
+    era5.open_da.cache_clear()
+    cmip.open_var.cache_clear()
+    arco.open_arco_pl.cache_clear()
+
     if data_source == "CMIP":
         validate_calendar_type(config)
 
diff --git a/src/wam2layers/tracking/backtrack.py b/src/wam2layers/tracking/backtrack.py
index 0f1e253..44eb046 100644
--- a/src/wam2layers/tracking/backtrack.py
+++ b/src/wam2layers/tracking/backtrack.py
@@ -14,6 +14,7 @@ from wam2layers.tracking.core import (
     vertical_dispersion,
 )
 from wam2layers.tracking.io import (
+    clear_cache,
     load_data,
     load_tagging_region,
     output_path,
@@ -119,6 +120,7 @@ def initialize(config_file: Config) -> tuple[Config, xr.Dataset, DatasetCoordina
     logger.info(f"Initializing experiment with config file {config_file}")
 
     config = Config.from_yaml(config_file)
+    clear_cache()
 
     # Initialize outputs as empty fields based on the input coords
     t = config.tracking_end_date
diff --git a/src/wam2layers/tracking/forwardtrack.py b/src/wam2layers/tracking/forwardtrack.py
index 993bed3..f5dbe8b 100644
--- a/src/wam2layers/tracking/forwardtrack.py
+++ b/src/wam2layers/tracking/forwardtrack.py
@@ -14,6 +14,7 @@ from wam2layers.tracking.core import (
     vertical_dispersion,
 )
 from wam2layers.tracking.io import (
+    clear_cache,
     load_data,
     load_tagging_region,
     output_path,
@@ -121,6 +122,7 @@ def initialize(config_file: Config) -> tuple[Config, xr.Dataset, DatasetCoordina
     logger.info(f"Initializing experiment with config file {config_file}")
 
     config = Config.from_yaml(config_file)
+    clear_cache()
 
     # Initialize outputs as empty fields based on the input coords
     t = config.tracking_start_date
diff --git a/src/wam2layers/tracking/io.py b/src/wam2layers/tracking/io.py
index 99efff6..a557543 100644
--- a/src/wam2layers/tracking/io.py
+++ b/src/wam2layers/tracking/io.py
@@ -112,6 +112,11 @@ def _load_slice_with_cache(filename, time, subset: str, bbox: Optional[str] = No
     return fully_load_and_detach(ds)
 
 
+def clear_cache() -> None:
+    """Forget data of earlier runs, which may have been regenerated since."""
+    _load_slice_with_cache.cache_clear()
+
+
 def load_slice(t: CfDateTime, subset: str, config: Config) -> xr.Dataset:
     filename = input_path(t, config.preprocessed_data_folder)
     time = t.strftime("%Y-%m-%dT%H:%M:%S")
-- 
2.43.0


From 3535cc97493fd626598101014ef7f03ac9f90337 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:34 +0000
Subject: [PATCH 13/20] fix: CMIP files are read in order, whatever order the
 folder lists them in

---
 src/wam2layers/utils/calendar.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/wam2layers/utils/calendar.py b/src/wam2layers/utils/calendar.py
index 5246a64..8bae479 100644
--- a/src/wam2layers/utils/calendar.py
+++ b/src/wam2layers/utils/calendar.py
@@ -80,7 +80,7 @@ def validate_calendar_type(config: "Config") -> None:
 
 def template_to_files(config: "Config", var: str) -> list[Path]:
     template = Path(config.filename_template.format(variable=var))
-    return list(template.parent.glob(template.name))
+    return sorted(template.parent.glob(template.name))
 
 
 def fix_deprecated_frequency(freq: str) -> str:
-- 
2.43.0


From 8231792d9ff82444a8f09d6fb9107d08176c2099 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:34 +0000
Subject: [PATCH 14/20] fix: gaps in 3-hourly CMIP variables no longer shift
 the averaged pairs

---
 src/wam2layers/preprocessing/cmip.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/wam2layers/preprocessing/cmip.py b/src/wam2layers/preprocessing/cmip.py
index 94928e4..389dc34 100644
--- a/src/wam2layers/preprocessing/cmip.py
+++ b/src/wam2layers/preprocessing/cmip.py
@@ -120,6 +120,7 @@ def load_cmip_var(variable: str, datetime: CfDateTime, config: Config):
 def resample_3hr_var(data: xr.DataArray) -> xr.DataArray:
     """Resample 3-hour flux variables to 6 hour intervals."""
     assert_correct_starttime(data)
+    assert_no_gaps(data)
     data = data.copy(deep=True)
 
     data["time"] = np.repeat(
@@ -138,6 +139,14 @@ def assert_correct_starttime(data: xr.DataArray):
         raise ValueError(msg)
 
 
+def assert_no_gaps(data: xr.DataArray):
+    """Every pair of values that is averaged should be 3 hours apart."""
+    first, second = data["time"].to_numpy()[::2], data["time"].to_numpy()[1::2]
+    if len(first) != len(second) or (second - first != pd.Timedelta("3h")).any():
+        msg = f"Missing times in the 3 hour variable '{data.name}'."
+        raise ValueError(msg)
+
+
 def common_levels(*levels: xr.DataArray) -> np.ndarray:
     """Find common pressure/model levels between multiple variables."""
     lvs = iter(levels)
-- 
2.43.0


From c20f56891b570ab00e6553f00bfa26f8c3489be6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:34 +0000
Subject: [PATCH 15/20] fix: validate the dimensions of total column water too

---
 src/wam2layers/preprocessing/input_validation.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/wam2layers/preprocessing/input_validation.py b/src/wam2layers/preprocessing/input_validation.py
index af55fe3..fe61a6a 100644
--- a/src/wam2layers/preprocessing/input_validation.py
+++ b/src/wam2layers/preprocessing/input_validation.py
@@ -35,6 +35,8 @@ def validate_vars(data: xr.Dataset, config: Config) -> None:
         expected_surface_vars.extend(["qs", "us", "vs"])
     if config.level_type == "model_levels":
         expected_level_vars.extend(["dp"])
+    if "tcw" in data.data_vars:  # optional
+        expected_surface_vars.append("tcw")
 
     # Check if the variables are present
     for var in expected_level_vars + expected_surface_vars:
-- 
2.43.0


From a2b95ece0be9be4bb57b1b83e3f6777e1dbd72c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:34 +0000
Subject: [PATCH 16/20] fix: missing values in the forcing stop a tracking run

---
 src/wam2layers/tracking/io.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/wam2layers/tracking/io.py b/src/wam2layers/tracking/io.py
index a557543..c4fe7bb 100644
--- a/src/wam2layers/tracking/io.py
+++ b/src/wam2layers/tracking/io.py
@@ -109,7 +109,11 @@ def _load_slice_with_cache(filename, time, subset: str, bbox: Optional[str] = No
     if bbox is not None:
         ds = select_subdomain(ds, bbox)
 
-    return fully_load_and_detach(ds)
+    ds = fully_load_and_detach(ds)
+    for var in variables:
+        if ds[var].isnull().any():
+            raise ValueError(f"Missing values in '{var}' at {time} in {filename}")
+    return ds
 
 
 def clear_cache() -> None:
-- 
2.43.0


From cb23396a3cfa2da95b3af386787a7ac512774175 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:22 +0000
Subject: [PATCH 17/20] fix: keep the seconds of dates in exported and embedded
 configurations

---
 src/wam2layers/config.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/wam2layers/config.py b/src/wam2layers/config.py
index 5254dc7..df2236a 100644
--- a/src/wam2layers/config.py
+++ b/src/wam2layers/config.py
@@ -605,5 +605,5 @@ class Config(BaseModel):
         jsondict = json.loads(jsonconfig)
 
         for date in dates:
-            jsondict[date] = getattr(self, date).strftime("%Y-%m-%dT%H:%M")
+            jsondict[date] = getattr(self, date).strftime("%Y-%m-%dT%H:%M:%S")
         return json.dumps(jsondict)
-- 
2.43.0


From 13b704af39a0034a6d7cc0c852239aac5e48b005 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:07:14 +0000
Subject: [PATCH 18/20] fix: report an error when a parallel preprocessing
 worker is killed

---
 src/wam2layers/preprocessing/shared.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/wam2layers/preprocessing/shared.py b/src/wam2layers/preprocessing/shared.py
index ec900df..f7ff291 100644
--- a/src/wam2layers/preprocessing/shared.py
+++ b/src/wam2layers/preprocessing/shared.py
@@ -2,8 +2,8 @@
 
 import os
 import warnings
+from concurrent.futures import ProcessPoolExecutor
 from itertools import product
-from multiprocessing.pool import Pool
 from pathlib import Path
 from typing import Literal, Union
 
@@ -277,9 +277,11 @@ def parallel_preprocess(
     This preprocessor will be a lot more memory and CPU intensive, but will speed
     up preprocessing significantly.
     """
-    pool = Pool(config.parallel_processes)
     args = product(day_groups.values(), (data_source,), (config,))
-    pool.starmap(preprocess, args)
+    # Unlike multiprocessing's Pool, this raises an error (instead of waiting forever)
+    # if one of the processes is killed, e.g. because the system ran out of memory.
+    with ProcessPoolExecutor(config.parallel_processes) as pool:
+        list(pool.map(preprocess, *zip(*args)))
 
 
 def shift_longitude(ds: xr.Dataset) -> xr.Dataset:
-- 
2.43.0


From 7f1e6634ab54cb7de7412c51023ca635a199056c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:57:55 +0000
Subject: [PATCH 19/20] fix: let runs that share an output folder write the
 same debug file at the same time

---
 src/wam2layers/tracking/io.py     | 8 +++++---
 src/wam2layers/utils/profiling.py | 6 +++++-
 2 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/wam2layers/tracking/io.py b/src/wam2layers/tracking/io.py
index c4fe7bb..111bf3f 100644
--- a/src/wam2layers/tracking/io.py
+++ b/src/wam2layers/tracking/io.py
@@ -151,9 +151,11 @@ def load_tagging_region(config: Config, t: Optional[CfDateTime] = None):
         tagging_region = create_mask(ds, config.tagging_region)
         logger.info("Writing mask to debug folder.")
         (config.output_folder / "debug").mkdir(exist_ok=True)
-        tagging_region.to_dataset().to_netcdf(
-            config.output_folder / "debug" / "tagging_region.nc"
-        )
+        # Another run in the same folder may be writing the same file
+        path = config.output_folder / "debug" / "tagging_region.nc"
+        temporary_path = f"{path}.{os.getpid()}.tmp"
+        tagging_region.to_dataset().to_netcdf(temporary_path)
+        os.replace(temporary_path, path)
     else:
         tagging_region = xr.open_dataarray(config.tagging_region)
 
diff --git a/src/wam2layers/utils/profiling.py b/src/wam2layers/utils/profiling.py
index df635f8..905eac2 100644
--- a/src/wam2layers/utils/profiling.py
+++ b/src/wam2layers/utils/profiling.py
@@ -1,4 +1,5 @@
 import logging
+import os
 import time
 
 import numpy as np
@@ -167,7 +168,10 @@ class ProgressTracker:
             filename = debug_dir / f"stability_correction_{timestamp}.nc"
 
             correction_factor.name = "correction_factor"
-            correction_factor.to_netcdf(filename)
+            # Another run in the same folder may be writing the same file
+            temporary_path = f"{filename}.{os.getpid()}.tmp"
+            correction_factor.to_netcdf(temporary_path)
+            os.replace(temporary_path, filename)
 
             logger.warning(
                 f"Warning: stability correction applied to {corrected_percent:.1f}% of "
-- 
2.43.0


From e85c24e667b5bd501818861c2f96e4f975760cb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:13:29 +0000
Subject: [PATCH 20/20] fix: grid spacing of a domain whose first two columns
 lie across the date line

---
 src/wam2layers/utils/grid.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/wam2layers/utils/grid.py b/src/wam2layers/utils/grid.py
index 6f14f95..8b195ac 100644
--- a/src/wam2layers/utils/grid.py
+++ b/src/wam2layers/utils/grid.py
@@ -48,6 +48,7 @@ def get_grid_info(ds):
     latitude = ds.latitude.values
     longitude = ds.longitude.values
     dx_deg = np.abs(longitude[1] - longitude[0])  # [degrees]
+    dx_deg = np.minimum(dx_deg, 360 - dx_deg)  # if they are across the date line
     dy_deg = np.abs(latitude[1] - latitude[0])  # [degrees]
 
     # Calculate area TODO check this calculation!
-- 
2.43.0

