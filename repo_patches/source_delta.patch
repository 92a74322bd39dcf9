From 55ae131c39170a585b4750c6b52e2157059120e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:27:03 +0000
Subject: [PATCH 01/27] fix: write checkpoint.npz atomically

The checkpoint was rewritten in place, so a crash or a failed write while
saving a checkpoint destroyed the only restart point of the run.
---
 pyDeltaRCM/iteration_tools.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pyDeltaRCM/iteration_tools.py b/pyDeltaRCM/iteration_tools.py
index 6e51731..65150fd 100644
--- a/pyDeltaRCM/iteration_tools.py
+++ b/pyDeltaRCM/iteration_tools.py
@@ -468,8 +468,11 @@ class iteration_tools(abc.ABC):
             rng_state_list, dtype=object
         )  # convert to object before saving
 
+        # write to a temporary file and then move it into place, so that an
+        # interrupted or failed write never damages the existing checkpoint
+        tmp_file = os.path.join(self.prefix, "checkpoint.tmp.npz")
         np.savez_compressed(
-            ckp_file,
+            tmp_file,
             # time and counter variables
             time=self.time,
             time_iter=self._time_iter,
@@ -491,3 +494,4 @@ class iteration_tools(abc.ABC):
             H_SL=self._H_SL,
             rng_state=rng_state,
         )
+        os.replace(tmp_file, ckp_file)
-- 
2.43.0


From 2a58d6866d0ee45a091fd55426da9301ece0283d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:27:03 +0000
Subject: [PATCH 02/27] fix: restore the time since the last data save without
 truncation

The value is a (float) number of seconds; truncating it to an integer shifted
the save schedule of a resumed run whenever dt was not a whole number.
---
 pyDeltaRCM/init_tools.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyDeltaRCM/init_tools.py b/pyDeltaRCM/init_tools.py
index 97c5407..86cb4ca 100644
--- a/pyDeltaRCM/init_tools.py
+++ b/pyDeltaRCM/init_tools.py
@@ -889,7 +889,7 @@ class init_tools(abc.ABC):
         self.H_SL = float(checkpoint["H_SL"])
         self._time_iter = int(checkpoint["time_iter"])
         self._save_iter = int(checkpoint["save_iter"])
-        self._save_time_since_data = int(checkpoint["save_time_since_data"])
+        self._save_time_since_data = float(checkpoint["save_time_since_data"])
 
         # load grids
         self.eta = checkpoint["eta"]
-- 
2.43.0


From 061340c30e78bf4c1657477c3a59517928f1b7c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:27:03 +0000
Subject: [PATCH 03/27] fix: keep the output file intact until its copy is
 complete on resume

Resuming moved the output file away before copying it, so a crash or error
during the copy left a partial output file, and the next resume attempt
discarded every record saved so far.
---
 pyDeltaRCM/init_tools.py | 19 +++++++++----------
 1 file changed, 9 insertions(+), 10 deletions(-)

diff --git a/pyDeltaRCM/init_tools.py b/pyDeltaRCM/init_tools.py
index 86cb4ca..1fe9105 100644
--- a/pyDeltaRCM/init_tools.py
+++ b/pyDeltaRCM/init_tools.py
@@ -941,11 +941,8 @@ class init_tools(abc.ABC):
                         "connections to the file before proceeding."
                     )
                 # if not open elsewhere, then proceed
-                # rename the old netCDF4 file
-                _msg = "Renaming old NetCDF4 output file"
-                self.log_info(_msg, verbosity=2)
-                _tmp_name = os.path.join(self.prefix, "old_pyDeltaRCM_output.nc")
-                os.rename(file_path, _tmp_name)
+                # name of the copy, which replaces the output file when complete
+                _tmp_name = os.path.join(self.prefix, "new_pyDeltaRCM_output.nc")
 
                 # write dims / attributes / variables to new netCDF file
                 _msg = "Creating NetCDF4 output file"
@@ -956,8 +953,8 @@ class init_tools(abc.ABC):
                     self.init_metadata_list()
 
                 # copy data from old netCDF4 into new one
-                with Dataset(_tmp_name) as src, Dataset(
-                    file_path, "w", format="NETCDF4"
+                with Dataset(file_path) as src, Dataset(
+                    _tmp_name, "w", format="NETCDF4"
                 ) as dst:
                     # copy attributes
                     for name in src.ncattrs():
@@ -984,14 +981,16 @@ class init_tools(abc.ABC):
                         dst.createVariable(name, variable.datatype, variable.dimensions)
                         dst.variables[name][:] = src.variables[name][:]
 
+                # replace the old netCDF4 file by the complete copy
+                _msg = "Renaming old NetCDF4 output file"
+                self.log_info(_msg, verbosity=2)
+                os.replace(_tmp_name, file_path)
+
                 # set object attribute for model
                 self.output_netcdf = Dataset(file_path, "r+", format="NETCDF4")
 
                 # synch netcdf file
                 self.output_netcdf.sync()
 
-                # delete old netCDF4 file
-                os.remove(_tmp_name)
-
         _msg = "Successfully loaded checkpoint."
         self.log_info(_msg, verbosity=1)
-- 
2.43.0


From 0bd27ce2289102e8987928c52aa9a9771666792a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:27:03 +0000
Subject: [PATCH 04/27] fix: keep the attributes of output variables on resume

The units of every variable were dropped when the output file was copied.
---
 pyDeltaRCM/init_tools.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pyDeltaRCM/init_tools.py b/pyDeltaRCM/init_tools.py
index 1fe9105..47485b6 100644
--- a/pyDeltaRCM/init_tools.py
+++ b/pyDeltaRCM/init_tools.py
@@ -972,13 +972,15 @@ class init_tools(abc.ABC):
                             _mname = name + "/" + vname
                             dst.createVariable(
                                 _mname, variable.datatype, variable.dimensions
-                            )
+                            ).setncatts(variable.__dict__)
                             dst.groups[name].variables[vname][:] = src.groups[
                                 name
                             ].variables[vname][:]
                     # copy variables except ones to exclude
                     for name, variable in src.variables.items():
-                        dst.createVariable(name, variable.datatype, variable.dimensions)
+                        dst.createVariable(
+                            name, variable.datatype, variable.dimensions
+                        ).setncatts(variable.__dict__)
                         dst.variables[name][:] = src.variables[name][:]
 
                 # replace the old netCDF4 file by the complete copy
-- 
2.43.0


From 49024d84d905c364c147f916b6fa0a9ac6863d5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:27:23 +0000
Subject: [PATCH 05/27] fix: begin every job from the random state of its own
 model

All serial jobs are instantiated before the first one runs, and a parallel
job runs in a new process where the generator is reseeded from the operating
system, so the seed of a job did not determine its result in either case.
---
 pyDeltaRCM/preprocessor.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/pyDeltaRCM/preprocessor.py b/pyDeltaRCM/preprocessor.py
index 9246836..7fee877 100644
--- a/pyDeltaRCM/preprocessor.py
+++ b/pyDeltaRCM/preprocessor.py
@@ -708,6 +708,10 @@ class _BaseJob(abc.ABC):
         self.deltamodel = DeltaModel(input_file=input_file, defer_output=defer_output)
         _curr_time = self.deltamodel._time
 
+        # the random number generator is shared by all models of a process (and
+        #   is reset in new processes), so keep the state this model begins from
+        self._rng_state = shared_tools.get_random_state()
+
         # process If
         if "If" in config_dict.keys():
             self._If = float(config_dict["If"])
@@ -789,6 +793,8 @@ class _SerialJob(_BaseJob):
         Iterate the timestep ``update`` routine for the specified number of
         iterations.
         """
+        shared_tools.set_random_state(self._rng_state)
+
         # try to initialize and run the model
         try:
             # run the simulation
@@ -878,6 +884,8 @@ class _ParallelJob(_BaseJob, multiprocessing.Process):
         try:
             # try to initialize and run the model
             try:
+                shared_tools.set_random_state(self._rng_state)
+
                 # initialize the output files (defer_output=True above)
                 # unless resuming from checkpoint, then load the checkpoint
                 if self.deltamodel.resume_checkpoint:
-- 
2.43.0


From f6f1d4e0615c06d1076c7332bcc22d325d051e48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:27:23 +0000
Subject: [PATCH 06/27] fix: run exactly the specified number of timesteps

The elapsed time is a sum of many dt, which rounds differently than
timesteps * dt, so that a job could run one more timestep than specified.
---
 pyDeltaRCM/preprocessor.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/pyDeltaRCM/preprocessor.py b/pyDeltaRCM/preprocessor.py
index 7fee877..2f7198c 100644
--- a/pyDeltaRCM/preprocessor.py
+++ b/pyDeltaRCM/preprocessor.py
@@ -719,6 +719,7 @@ class _BaseJob(abc.ABC):
             self._If = 1.0
 
         # determine job end time, *in model time*
+        self._job_end_iter = None  # or, in number of timesteps
         if "timesteps" in config_dict.keys():
             # fill informational fields
             self._time_type = "timesteps"
@@ -728,6 +729,7 @@ class _BaseJob(abc.ABC):
             self._job_end_time = _curr_time + (
                 (config_dict["timesteps"] * self.deltamodel._dt)
             )
+            self._job_end_iter = self.deltamodel._time_iter + config_dict["timesteps"]
 
         elif "time" in config_dict.keys():
             # fill informational fields
@@ -752,6 +754,13 @@ class _BaseJob(abc.ABC):
                 "the input YAML file or via input arguments."
             )
 
+    def _is_complete(self) -> bool:
+        """Whether the model has been run for the specified duration."""
+        if self._job_end_iter is not None:
+            # count steps, the sum of many dt is subject to rounding
+            return self.deltamodel._time_iter >= self._job_end_iter
+        return self.deltamodel._time >= self._job_end_time
+
     @abc.abstractmethod
     def run(self):
         """Implementation to run the jobs as needed.
@@ -798,7 +807,7 @@ class _SerialJob(_BaseJob):
         # try to initialize and run the model
         try:
             # run the simulation
-            while self.deltamodel._time < self._job_end_time:
+            while not self._is_complete():
                 self.deltamodel.update()
 
         # if the model run fails
@@ -904,7 +913,7 @@ class _ParallelJob(_BaseJob, multiprocessing.Process):
                     self.deltamodel.output_checkpoint()
 
                 # run the simualtion
-                while self.deltamodel._time < self._job_end_time:
+                while not self._is_complete():
                     self.deltamodel.update()
 
             # if the model run fails
-- 
2.43.0


From cc44264a927c68fa1fd7603dbcdeee3fb0d35b14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:27:41 +0000
Subject: [PATCH 07/27] fix: contain every error of a job to that job

Only RuntimeError and ValueError were handled, but failures to save (OSError,
and the plain Exception raised by save_grids) are not of these types, so a full
disk in one serial job aborted all of the jobs after it, and a parallel job
ended without any report and without closing its output file.
---
 pyDeltaRCM/preprocessor.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pyDeltaRCM/preprocessor.py b/pyDeltaRCM/preprocessor.py
index 2f7198c..38ac3bc 100644
--- a/pyDeltaRCM/preprocessor.py
+++ b/pyDeltaRCM/preprocessor.py
@@ -811,7 +811,7 @@ class _SerialJob(_BaseJob):
                 self.deltamodel.update()
 
         # if the model run fails
-        except (RuntimeError, ValueError) as e:
+        except Exception as e:
             _msg = ", ".join(
                 [
                     "job: " + str(self.i),
@@ -833,7 +833,7 @@ class _SerialJob(_BaseJob):
             self.deltamodel.finalize()
 
         # if the model finalization fails
-        except (RuntimeError, ValueError) as e:
+        except Exception as e:
             _msg = ", ".join(
                 [
                     "job: " + str(self.i),
@@ -917,7 +917,7 @@ class _ParallelJob(_BaseJob, multiprocessing.Process):
                     self.deltamodel.update()
 
             # if the model run fails
-            except (RuntimeError, ValueError) as e:
+            except Exception as e:
                 self.queue.put({"job": self.i, "stage": 1, "code": 1, "msg": str(e)})
                 self.deltamodel.logger.error(str(e))
                 self.deltamodel.logger.exception(e)
@@ -931,7 +931,7 @@ class _ParallelJob(_BaseJob, multiprocessing.Process):
                 self.deltamodel.finalize()
 
             # if the model finalization fails
-            except (RuntimeError, ValueError) as e:
+            except Exception as e:
                 self.queue.put({"job": self.i, "stage": 2, "code": 1, "msg": str(e)})
                 self.deltamodel.logger.error(str(e))
                 self.deltamodel.logger.exception(e)
-- 
2.43.0


From 7c8afa378adf16b9a5a55eea312c1b222f14f510 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:28:03 +0000
Subject: [PATCH 08/27] fix: read the queue of parallel jobs while waiting for
 them to end

A process does not end before everything it put in the queue is read, so
joining all jobs first hung forever when the reports exceeded the capacity of
the pipe (hundreds of jobs, or a long error message).
---
 pyDeltaRCM/preprocessor.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/pyDeltaRCM/preprocessor.py b/pyDeltaRCM/preprocessor.py
index 38ac3bc..3e74a0c 100644
--- a/pyDeltaRCM/preprocessor.py
+++ b/pyDeltaRCM/preprocessor.py
@@ -621,13 +621,20 @@ class BasePreprocessor(abc.ABC):
                 p.start()
 
             # join processes to prevent ending the jobs before moving forward
+            #   NOTE: read the queue meanwhile, because a process cannot end
+            #         until everything it put in the queue has been read
+            reports = []
             for i in self._job_list:
-                i.join()
+                while i.exitcode is None:
+                    i.join(timeout=1)
+                    while not q.empty():
+                        reports.append(q.get())
 
             # read from the queue and report (asynchronous...buggy...)
             time.sleep(1)
             while not q.empty():
-                gotq = q.get()
+                reports.append(q.get())
+            for gotq in reports:
                 if gotq["code"] == 1:
                     print("Job {job} ended in error:\n {msg}".format_map(gotq))
                 else:
-- 
2.43.0


From 0e39a3f9cf35169d9c2182f3f2f744058df5e84a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:28:03 +0000
Subject: [PATCH 09/27] fix: do not wait forever for the slot of a killed
 parallel job

A job that is killed (e.g., out of memory) cannot release the semaphore, so
the remaining jobs were never started, nor was the loss of the job reported.
---
 pyDeltaRCM/preprocessor.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/pyDeltaRCM/preprocessor.py b/pyDeltaRCM/preprocessor.py
index 3e74a0c..116d7f8 100644
--- a/pyDeltaRCM/preprocessor.py
+++ b/pyDeltaRCM/preprocessor.py
@@ -597,7 +597,12 @@ class BasePreprocessor(abc.ABC):
 
             # loop and create and start all jobs
             for i in range(0, num_total_processes):
-                s.acquire()  # aquire resource from Semaphore
+                # aquire resource from Semaphore
+                while not s.acquire(timeout=1):
+                    # a job that was killed could not release its resource
+                    n_alive = sum(j.exitcode is None for j in self._job_list)
+                    for _ in range(num_parallel_processes - n_alive - s.get_value()):
+                        s.release()
 
                 # open yaml file for specific job
                 job_yaml = self._open_yaml(self.file_list[i])
@@ -634,6 +639,9 @@ class BasePreprocessor(abc.ABC):
             time.sleep(1)
             while not q.empty():
                 reports.append(q.get())
+            for i in self._job_list:
+                if i.exitcode != 0:
+                    print("Job %s exited with code %s." % (i.i, i.exitcode))
             for gotq in reports:
                 if gotq["code"] == 1:
                     print("Job {job} ended in error:\n {msg}".format_map(gotq))
-- 
2.43.0


From 0045a8ea8d94c4cfad5a73e94ef6b0f8f62db9c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:48:11 +0000
Subject: [PATCH 10/27] fix: save custom grids when only metadata is saved
 besides them

---
 pyDeltaRCM/iteration_tools.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyDeltaRCM/iteration_tools.py b/pyDeltaRCM/iteration_tools.py
index 65150fd..b402cec 100644
--- a/pyDeltaRCM/iteration_tools.py
+++ b/pyDeltaRCM/iteration_tools.py
@@ -295,10 +295,11 @@ class iteration_tools(abc.ABC):
                     )
 
         # ------------------ grids ------------------
-        if self._save_any_grids:
+        if self._save_metadata or self._save_any_grids:
             _msg = "Saving grids"
             self.log_info(_msg, verbosity=2)
 
+            # includes any grids added by the user (hook_init_output_file)
             _var_list = list(self._save_var_list.keys())
             _var_list.remove("meta")
             for _val in _var_list:
-- 
2.43.0


From 9b4cba487e2be33e87f0da94cab02ec526daac91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:48:11 +0000
Subject: [PATCH 11/27] fix: keep saving custom variables after a resume

---
 pyDeltaRCM/init_tools.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pyDeltaRCM/init_tools.py b/pyDeltaRCM/init_tools.py
index 47485b6..132b8d0 100644
--- a/pyDeltaRCM/init_tools.py
+++ b/pyDeltaRCM/init_tools.py
@@ -948,7 +948,9 @@ class init_tools(abc.ABC):
                 _msg = "Creating NetCDF4 output file"
                 self.log_info(_msg, verbosity=2)
 
-                # populate default metadata list
+                # populate the lists of variables to save, as when the file
+                # was created: custom variables and default metadata
+                self.hook_init_output_file()
                 if self._save_metadata:
                     self.init_metadata_list()
 
-- 
2.43.0


From 5052c4cfe9ba59f8e313cedd59160610fb8acba8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:04:34 +0000
Subject: [PATCH 12/27] fix: read the queue of parallel jobs also while waiting
 for a slot

---
 pyDeltaRCM/preprocessor.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/pyDeltaRCM/preprocessor.py b/pyDeltaRCM/preprocessor.py
index 116d7f8..ba17569 100644
--- a/pyDeltaRCM/preprocessor.py
+++ b/pyDeltaRCM/preprocessor.py
@@ -593,12 +593,18 @@ class BasePreprocessor(abc.ABC):
             s = multiprocessing.Semaphore(num_parallel_processes)
 
             # start a Queue for all Jobs
+            #   NOTE: read it while waiting for any job, because a process
+            #         cannot end until everything it put there has been read
             q = multiprocessing.Queue()
+            reports = []
 
             # loop and create and start all jobs
             for i in range(0, num_total_processes):
                 # aquire resource from Semaphore
                 while not s.acquire(timeout=1):
+                    while not q.empty():
+                        reports.append(q.get())
+
                     # a job that was killed could not release its resource
                     n_alive = sum(j.exitcode is None for j in self._job_list)
                     for _ in range(num_parallel_processes - n_alive - s.get_value()):
@@ -626,9 +632,6 @@ class BasePreprocessor(abc.ABC):
                 p.start()
 
             # join processes to prevent ending the jobs before moving forward
-            #   NOTE: read the queue meanwhile, because a process cannot end
-            #         until everything it put in the queue has been read
-            reports = []
             for i in self._job_list:
                 while i.exitcode is None:
                     i.join(timeout=1)
-- 
2.43.0


From 723c6cafec1089f8613b182e2dfd8fa5713234f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:14:24 +0000
Subject: [PATCH 13/27] fix: let arguments override the input file in
 single-job runs

---
 pyDeltaRCM/preprocessor.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/pyDeltaRCM/preprocessor.py b/pyDeltaRCM/preprocessor.py
index ba17569..83e7c84 100644
--- a/pyDeltaRCM/preprocessor.py
+++ b/pyDeltaRCM/preprocessor.py
@@ -38,6 +38,7 @@ class BasePreprocessor(abc.ABC):
     def __init__(self) -> None:
         """Initialize the base preprocessor."""
         self._input_file = None  # initialize empty
+        self._cli_dict = {}  # configuration given by arguments
 
         self._has_ensemble = False
         self._has_set = False
@@ -618,6 +619,10 @@ class BasePreprocessor(abc.ABC):
                 #   between writing and .run_jobs()
                 job_config = self.config_list[i].copy()
                 job_config.update(job_yaml)
+                if self.file_list[i] is self._input_file:
+                    # arguments override the input file (already the case
+                    #   in the files written for multiple jobs)
+                    job_config.update(self._cli_dict)
 
                 # instantiate the job
                 p = _ParallelJob(
@@ -666,6 +671,10 @@ class BasePreprocessor(abc.ABC):
                 #   between writing and .run_jobs()
                 job_config = self.config_list[i].copy()
                 job_config.update(job_yaml)
+                if self.file_list[i] is self._input_file:
+                    # arguments override the input file (already the case
+                    #   in the files written for multiple jobs)
+                    job_config.update(self._cli_dict)
 
                 p = _SerialJob(
                     i=i,
@@ -1008,6 +1017,7 @@ class PreprocessorCLI(BasePreprocessor):
         self.config_dict = {}
         self.config_dict.update(yaml_dict)
         self.config_dict.update(cli_dict)
+        self._cli_dict = cli_dict
 
         # construct file list (expansions)
         self.construct_file_list()
@@ -1175,6 +1185,7 @@ class Preprocessor(BasePreprocessor):
         self.config_dict = {}
         self.config_dict.update(yaml_dict)
         self.config_dict.update(cli_dict)
+        self._cli_dict = cli_dict
 
         # construct file list (expansions)
         self.construct_file_list()
-- 
2.43.0


From 3933ef2fc061b684530cd250aa0c4140a47d6b8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:14:59 +0000
Subject: [PATCH 14/27] fix: replace the configuration file of a job on resume

---
 pyDeltaRCM/preprocessor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyDeltaRCM/preprocessor.py b/pyDeltaRCM/preprocessor.py
index 83e7c84..1f7be13 100644
--- a/pyDeltaRCM/preprocessor.py
+++ b/pyDeltaRCM/preprocessor.py
@@ -1230,7 +1230,7 @@ def _write_yaml_config_to_file(_config, _path) -> None:
         else:
             f.write(varname + ": " + str(varvalue) + "\n")
 
-    f = open(_path, "a")
+    f = open(_path, "w")
     for k in _config.keys():
         _write_parameter_to_file(f, k, _config[k])
     f.close()
-- 
2.43.0


From d85f0093e6bf8f0e14ddff67442b729586acf12f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:16:18 +0000
Subject: [PATCH 15/27] fix: keep the seeds of an ensemble on resume

---
 pyDeltaRCM/preprocessor.py | 27 +++++++++++++++++++++++----
 1 file changed, 23 insertions(+), 4 deletions(-)

diff --git a/pyDeltaRCM/preprocessor.py b/pyDeltaRCM/preprocessor.py
index 1f7be13..74dbbd0 100644
--- a/pyDeltaRCM/preprocessor.py
+++ b/pyDeltaRCM/preprocessor.py
@@ -272,6 +272,7 @@ class BasePreprocessor(abc.ABC):
 
             # here we augment each set by duplicating and add seed
             new_set = []  # new set list
+            seeds = iter(self._get_ensemble_seeds(n_ensembles * len(old_set)))
             for ith_old_set in old_set:
                 # loop through the number of ensembles
                 for _ in range(n_ensembles):
@@ -279,7 +280,7 @@ class BasePreprocessor(abc.ABC):
                     jth_new_set = ith_old_set.copy()
 
                     # make a new seed for jth set
-                    jth_seed = np.random.randint((2**32) - 1, dtype="u8")
+                    jth_seed = next(seeds)
 
                     # fill seed spec
                     jth_new_set["seed"] = jth_seed
@@ -311,10 +312,8 @@ class BasePreprocessor(abc.ABC):
                 )
 
             # generate list of random seeds
-            seed_list = []
             n_ensembles = _ensemble
-            for i in range(n_ensembles):
-                seed_list.append(np.random.randint((2**32) - 1, dtype="u8"))
+            seed_list = self._get_ensemble_seeds(n_ensembles)
 
             # add list of random seeds to the matrix
             _matrix["seed"] = seed_list
@@ -325,6 +324,26 @@ class BasePreprocessor(abc.ABC):
             # change the variable to expand matrix on future step
             self._has_matrix = True
 
+    def _get_ensemble_seeds(self, n):
+        """Random seeds for an ensemble.
+
+        New seeds, unless resuming jobs from checkpoints, which already have
+        seeds (listed in the table of job parameters).
+        """
+        table = Path(str(self.config_dict.get("out_dir"))) / "jobs_parameters.txt"
+        if self.config_dict.get("resume_checkpoint") is True and table.is_file():
+            rows = [
+                [v.strip() for v in row.split(",")]
+                for row in table.read_text().splitlines()
+            ]
+            if rows and "seed" in rows[0]:
+                seeds = [int(row[rows[0].index("seed")]) for row in rows[1:]]
+                if not self._has_set:
+                    seeds = list(dict.fromkeys(seeds))  # each one once
+                if len(seeds) == n:
+                    return seeds
+        return [np.random.randint((2**32) - 1, dtype="u8") for _ in range(n)]
+
     def _expand_set(self) -> None:
         # determine the set
         _set = self.config_dict.pop("set")
-- 
2.43.0


From 6244b6f3a025583ea7be9f79ce27316242d8b08d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:23:58 +0000
Subject: [PATCH 16/27] fix: log every entry once when models begin in the same
 second

---
 pyDeltaRCM/init_tools.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pyDeltaRCM/init_tools.py b/pyDeltaRCM/init_tools.py
index 132b8d0..f4c791a 100644
--- a/pyDeltaRCM/init_tools.py
+++ b/pyDeltaRCM/init_tools.py
@@ -56,6 +56,11 @@ class init_tools(abc.ABC):
         formatter = logging.Formatter("%(asctime)s - %(levelname)s - %(message)s")
         fh.setFormatter(formatter)
 
+        # an earlier model that began in the same second has the same logger
+        for _handler in self.logger.handlers[:]:
+            self.logger.removeHandler(_handler)
+            _handler.close()
+
         # add handler to logger object
         self.logger.addHandler(fh)
 
-- 
2.43.0


From e28d229875bfdb1fe45ee482ae3b17fe2ef3ab4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:28:47 +0000
Subject: [PATCH 17/27] fix: leave a looped water parcel without a transport
 direction where it is

---
 pyDeltaRCM/water_tools.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pyDeltaRCM/water_tools.py b/pyDeltaRCM/water_tools.py
index 786b4bb..73fafe6 100644
--- a/pyDeltaRCM/water_tools.py
+++ b/pyDeltaRCM/water_tools.py
@@ -974,6 +974,7 @@ def _check_for_loops(
                     Fw = np.sqrt(Fx**2 + Fy**2)
 
                     # relocate the parcel along mean-transport vector
+                    px, py = px0, py0
                     if Fw != 0:
                         px = px0 + int(np.round(Fx / Fw * 5.0))
                         py = py0 + int(np.round(Fy / Fw * 5.0))
-- 
2.43.0


From 47995ffa9bb48930ffdead323004ce54610c2a24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:40:59 +0000
Subject: [PATCH 18/27] fix: keep water parcels from leaving the domain
 upstream of the inlet

---
 pyDeltaRCM/water_tools.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pyDeltaRCM/water_tools.py b/pyDeltaRCM/water_tools.py
index 73fafe6..8d69b57 100644
--- a/pyDeltaRCM/water_tools.py
+++ b/pyDeltaRCM/water_tools.py
@@ -124,6 +124,10 @@ class water_tools(abc.ABC):
             # use water weights and random pick to determine d8 direction
             new_direction = _choose_next_directions(current_inds, water_weights_flat)
 
+            # nothing lies upstream of the inlet row, so step downstream instead
+            upstream = np.logical_and(current_inds < self.W, new_direction < 3)
+            new_direction[upstream] = 7
+
             # use the new directions for each parcel to determine the new ind
             #   for each parcel
             new_inds = _calculate_new_inds(
-- 
2.43.0


From 332b332632b31f4e202e8691fe9c88b1c44ffe18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:55:11 +0000
Subject: [PATCH 19/27] fix: keep sediment parcels from leaving the domain
 upstream of the inlet

---
 pyDeltaRCM/sed_tools.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pyDeltaRCM/sed_tools.py b/pyDeltaRCM/sed_tools.py
index a545be1..0f85abe 100644
--- a/pyDeltaRCM/sed_tools.py
+++ b/pyDeltaRCM/sed_tools.py
@@ -297,6 +297,10 @@ def _get_weight_at_cell_sediment(
         # disallow movement into walls
         weight[wall] = 0
 
+        # disallow movement out of the domain, upstream of the inlet row
+        if ind[0] == 0:
+            weight[:3] = 0
+
     weight[ctr] = 0  # enforce
 
     # sanity check
-- 
2.43.0


From 754779b410edaf82f186a9ac0f6871d95ba6cf20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:05:17 +0000
Subject: [PATCH 20/27] fix: keep the subsidence rate when boundary conditions
 change the time step

---
 pyDeltaRCM/init_tools.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pyDeltaRCM/init_tools.py b/pyDeltaRCM/init_tools.py
index f4c791a..e43c7a4 100644
--- a/pyDeltaRCM/init_tools.py
+++ b/pyDeltaRCM/init_tools.py
@@ -454,7 +454,11 @@ class init_tools(abc.ABC):
         # initial width of self.free_surf_walk_indices
         self.size_indices = int(self.stepmax / 2)
 
-        self._dt = self.dVs / self.Qs0  # time step size
+        _dt = self.dVs / self.Qs0  # time step size
+        if hasattr(self, "sigma"):
+            # keep the subsidence rate when the time step changes
+            self.sigma = (self.sigma / self._dt) * _dt
+        self._dt = _dt
 
         self.omega_flow_iter = 2.0 / self._itermax
 
-- 
2.43.0


From 5bb253b96b17db651077eb1be6f546061401c652 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:05:17 +0000
Subject: [PATCH 21/27] fix: apply a changed bedload fraction to the sediment
 routers

---
 pyDeltaRCM/model.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pyDeltaRCM/model.py b/pyDeltaRCM/model.py
index 3101242..9ae2d10 100644
--- a/pyDeltaRCM/model.py
+++ b/pyDeltaRCM/model.py
@@ -1488,6 +1488,7 @@ class DeltaModel(
     @bedload_fraction.setter
     def bedload_fraction(self, new_u0: float) -> None:
         self.f_bedload = new_u0
+        self.init_sediment_routers()
 
     @property
     def influx_sediment_concentration(self) -> float:
-- 
2.43.0


From c2cea8fe5933506d19211456b0c6f74a4209b103 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:23:05 +0000
Subject: [PATCH 22/27] fix: quote text in job configuration files where yaml
 needs it

---
 pyDeltaRCM/preprocessor.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pyDeltaRCM/preprocessor.py b/pyDeltaRCM/preprocessor.py
index 74dbbd0..8b56822 100644
--- a/pyDeltaRCM/preprocessor.py
+++ b/pyDeltaRCM/preprocessor.py
@@ -1246,6 +1246,9 @@ def _write_yaml_config_to_file(_config, _path) -> None:
         """Write each line, formatted."""
         if varvalue is None:
             f.write(varname + ": " + "null" + "\n")
+        elif isinstance(varvalue, str):
+            # quoted where yaml needs it (e.g., "#" or ": " in a path)
+            f.write(yaml.safe_dump({varname: varvalue}, width=float("inf")))
         else:
             f.write(varname + ": " + str(varvalue) + "\n")
 
-- 
2.43.0


From b41a8d8fdb1698ecef77f707ed06f02e87af4de1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:23:05 +0000
Subject: [PATCH 23/27] fix: list the parameters of every set under their names
 in the table

---
 pyDeltaRCM/preprocessor.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pyDeltaRCM/preprocessor.py b/pyDeltaRCM/preprocessor.py
index 8b56822..262d387 100644
--- a/pyDeltaRCM/preprocessor.py
+++ b/pyDeltaRCM/preprocessor.py
@@ -397,8 +397,10 @@ class BasePreprocessor(abc.ABC):
             # get config for this job
             ith_config["out_dir"] = ith_dir
 
-            # loop through each var of this job
-            for j, (key, val) in enumerate(_set[i].items()):
+            # loop through each var of this job (ordered as in the table header)
+            for j, key in enumerate(_set[0].keys()):
+                val = _set[i][key]
+
                 # write info into fixed config dict
                 ith_config[key] = val
 
-- 
2.43.0


From 65e8dab4e9617522451f5e32722c2654d528430d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:53:35 +0000
Subject: [PATCH 24/27] fix: water parcel without wet neighbours never stays in
 place

Staying ended the parcel inside the domain, so that its discharge never
reached the edge.
---
 pyDeltaRCM/water_tools.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/pyDeltaRCM/water_tools.py b/pyDeltaRCM/water_tools.py
index 8d69b57..92f9121 100644
--- a/pyDeltaRCM/water_tools.py
+++ b/pyDeltaRCM/water_tools.py
@@ -689,10 +689,14 @@ def _get_weight_at_cell_water(
                 # no wet (and valid) neighbors. How did we get here??
                 #    Maybe by flooding corrections? Solution is to
                 #    allow to walk into any non-land cell, true random
-                nnotwall = np.sum(~wall)
+                #    (but never to stay, which would end the parcel here)
+                notwall = ~wall
+                if np.sum(~invalid) > 0:
+                    notwall = ~invalid
+                nnotwall = np.sum(notwall)
                 weight[:] = 0
                 if nnotwall > 0:
-                    weight[~wall] = 1 / nnotwall
+                    weight[notwall] = 1 / nnotwall
                 else:
                     raise RuntimeError(
                         "No non-wall cells surrounding cell. " "Please report error."
-- 
2.43.0


From 25e4eb07a510398772848c270c7af8803e8ab621 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:56:37 +0000
Subject: [PATCH 25/27] fix: switching velocity figures off removed the
 sediment flux figures

---
 pyDeltaRCM/model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyDeltaRCM/model.py b/pyDeltaRCM/model.py
index 9ae2d10..5369515 100644
--- a/pyDeltaRCM/model.py
+++ b/pyDeltaRCM/model.py
@@ -723,7 +723,7 @@ class DeltaModel(
         elif (save_velocity_figs is False) and (
             "velocity" in self._save_fig_list.keys()
         ):
-            del self._save_fig_list["sedflux"]
+            del self._save_fig_list["velocity"]
         self._save_velocity_figs = save_velocity_figs
 
     @property
-- 
2.43.0


From 8cdfbf5dd47cbb4c1b1d9aed6bea6289ca1a447d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:56:37 +0000
Subject: [PATCH 26/27] fix: command line without --dryrun overrode dryrun of
 the configuration file

---
 pyDeltaRCM/preprocessor.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pyDeltaRCM/preprocessor.py b/pyDeltaRCM/preprocessor.py
index 262d387..774ef94 100644
--- a/pyDeltaRCM/preprocessor.py
+++ b/pyDeltaRCM/preprocessor.py
@@ -1137,6 +1137,9 @@ class PreprocessorCLI(BasePreprocessor):
         if args_dict["If"] is None:
             # if not given remove the key from cli spec
             args_dict.pop("If")
+        if not args_dict["dryrun"]:
+            # if not given remove the key from cli spec
+            args_dict.pop("dryrun")
 
         return args_dict
 
-- 
2.43.0


From 8bc095e1df948cf3675e8c1584c0b9c0fbb2e77b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:07:25 +0000
Subject: [PATCH 27/27] fix: ensemble expansion altered the matrix of the
 caller's configuration

---
 pyDeltaRCM/preprocessor.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyDeltaRCM/preprocessor.py b/pyDeltaRCM/preprocessor.py
index 774ef94..fb1677e 100644
--- a/pyDeltaRCM/preprocessor.py
+++ b/pyDeltaRCM/preprocessor.py
@@ -315,7 +315,8 @@ class BasePreprocessor(abc.ABC):
             n_ensembles = _ensemble
             seed_list = self._get_ensemble_seeds(n_ensembles)
 
-            # add list of random seeds to the matrix
+            # add list of random seeds to (a copy of) the matrix
+            _matrix = _matrix.copy()
             _matrix["seed"] = seed_list
 
             # write it back to the total configuration
-- 
2.43.0

