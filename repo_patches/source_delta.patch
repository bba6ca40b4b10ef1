From c8b2ba52dfa2f78401bab385cca354def9fc1907 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:12 +0000
Subject: [PATCH 01/34] fix: leave of an overlapping call must not close
 another call in caller/callee matching

---
 pipit/trace.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/pipit/trace.py b/pipit/trace.py
index fcc9f75..8d360dd 100644
--- a/pipit/trace.py
+++ b/pipit/trace.py
@@ -247,6 +247,7 @@ class Trace:
                 df_indices, event_types = list(filtered_df.index), list(
                     filtered_df["Event Type"]
                 )
+                matching_indices = list(filtered_df["_matching_event"])
 
                 # loop through the events of the filtered dataframe
                 for i in range(len(filtered_df)):
@@ -272,11 +273,15 @@ class Trace:
                         # add enter dataframe index to stack
                         stack.append(curr_df_index)
                     else:
-                        # pop event off stack once matching leave found
+                        # remove event from stack once matching leave found
+                        # (it isn't on top of the stack if calls overlap)
                         # Note: parent, and children for a leave row
                         # can be found using the matching index that
                         # corresponds to the enter row
-                        stack.pop()
+                        if stack[-1] == matching_indices[i]:
+                            stack.pop()
+                        else:
+                            stack.remove(matching_indices[i])
 
                         curr_depth -= 1
 
-- 
2.43.0


From 5fa800093332f538cebd41d71cf0f72fb6932917 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:12 +0000
Subject: [PATCH 02/34] fix: load_imbalance selects the metric column before
 sorting the processes

---
 pipit/trace.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pipit/trace.py b/pipit/trace.py
index 8d360dd..50a1a37 100644
--- a/pipit/trace.py
+++ b/pipit/trace.py
@@ -588,7 +588,7 @@ class Trace:
 
         functions = set(self.events.loc[self.events["Event Type"] == "Enter"]["Name"])
         for function in functions:
-            curr_series = flat_profile.loc[function]
+            curr_series = flat_profile.loc[function][metric]
 
             top_n = curr_series.sort_values(ascending=False).iloc[0:num_display]
 
-- 
2.43.0


From f2893709b36c0d4f527d9e21215bd13ab7ec0c29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:12 +0000
Subject: [PATCH 03/34] fix: idle_time no longer adds the MPI functions to the
 caller's and the default list

---
 pipit/trace.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pipit/trace.py b/pipit/trace.py
index 50a1a37..7d6da97 100644
--- a/pipit/trace.py
+++ b/pipit/trace.py
@@ -623,7 +623,8 @@ class Trace:
             self.calc_inc_metrics()
 
         if mpi_events:
-            idle_functions += ["MPI_Wait", "MPI_Waitall", "MPI_Recv"]
+            # copy, so that neither the default nor the caller's list is changed
+            idle_functions = idle_functions + ["MPI_Wait", "MPI_Waitall", "MPI_Recv"]
         # filter the dataframe to include only 'Enter' events within the specified
         # process with the specified function names
         df = self.events
-- 
2.43.0


From c5d8570c74023e8044488c8d7f51e13d387cb101 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:31 +0000
Subject: [PATCH 04/34] fix: flat_profile accepts a list of grouping columns as
 documented

---
 pipit/trace.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/pipit/trace.py b/pipit/trace.py
index 7d6da97..5799ae3 100644
--- a/pipit/trace.py
+++ b/pipit/trace.py
@@ -530,6 +530,9 @@ class Trace:
         """
 
         metrics = [metrics] if not isinstance(metrics, list) else metrics
+        groupby_columns = (
+            groupby_column if isinstance(groupby_column, list) else [groupby_column]
+        )
 
         # calculate inclusive time if needed
         if "time.inc" in metrics:
@@ -545,13 +548,13 @@ class Trace:
         if per_process:
             return (
                 self.events.loc[self.events["Event Type"] == "Enter"]
-                .groupby([groupby_column, "Process"], observed=True)[metrics]
+                .groupby([*groupby_columns, "Process"], observed=True)[metrics]
                 .sum()
             )
         else:
             return (
                 self.events.loc[self.events["Event Type"] == "Enter"]
-                .groupby([groupby_column, "Process"], observed=True)[metrics]
+                .groupby([*groupby_columns, "Process"], observed=True)[metrics]
                 .sum()
                 .groupby(groupby_column)
                 .mean()
-- 
2.43.0


From 7acfde015fa6ce245c093a4e6e2e9c549b3d9179 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:31 +0000
Subject: [PATCH 05/34] fix: identify calling context tree nodes by parent node
 and name, not by joined names

---
 pipit/util/cct.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/pipit/util/cct.py b/pipit/util/cct.py
index b499227..4aa95a6 100644
--- a/pipit/util/cct.py
+++ b/pipit/util/cct.py
@@ -19,6 +19,7 @@ def create_cct(events):
     graph_nodes = [None for i in range(len(events))]
 
     # determines whether a node exists or not
+    # (maps the parent's node id and the function name to a node)
     callpath_to_node = dict()
 
     node_id = 0  # each node has a unique id
@@ -45,7 +46,7 @@ def create_cct(events):
         else:
             filtered_df = enter_leave_df.loc[(enter_leave_df["Process"] == curr_loc)]
 
-        curr_depth, callpath = 0, ""
+        curr_depth = 0
 
         """
         Iterating over lists instead of
@@ -68,19 +69,23 @@ def create_cct(events):
 
             # encounter a new function through its entry point.
             if evt_type == "Enter":
-                # add the function to the stack and get the call path
+                # add the function to the stack
                 functions_stack.append(function_name)
-                callpath = "->".join(functions_stack)
 
                 # get the parent node of the function if it exists
                 parent_node = None if curr_depth == 0 else nodes_stack[-1]
 
+                # the parent's node and the function name identify the call path
+                parent_nid = None if curr_depth == 0 else parent_node._pipit_nid
+                callpath = (parent_nid, function_name)
+
                 if callpath in callpath_to_node:
                     # don't create new node if callpath is in map
                     curr_node = callpath_to_node[callpath]
                 else:
                     # create new node if callpath isn't in map
-                    curr_node = Node(node_id, parent_node, curr_depth)
+                    curr_level = 0 if curr_depth == 0 else parent_node.get_level() + 1
+                    curr_node = Node(node_id, parent_node, curr_level)
                     callpath_to_node[callpath] = curr_node
                     node_id += 1
 
-- 
2.43.0


From 4150403a159c4230a3d51182c407bb9fda2a2c11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:31 +0000
Subject: [PATCH 06/34] fix: keep the recorded order of events with equal
 timestamps when sorting

---
 pipit/readers/otf2_reader.py        | 7 ++++++-
 pipit/readers/projections_reader.py | 7 ++++++-
 pipit/trace.py                      | 7 ++++++-
 3 files changed, 18 insertions(+), 3 deletions(-)

diff --git a/pipit/readers/otf2_reader.py b/pipit/readers/otf2_reader.py
index b685c3a..538ac3b 100644
--- a/pipit/readers/otf2_reader.py
+++ b/pipit/readers/otf2_reader.py
@@ -472,7 +472,12 @@ class OTF2Reader:
 
         # ensures the DataFrame is in order of increasing timestamp
         events_dataframe.sort_values(
-            by="Timestamp (ns)", axis=0, ascending=True, inplace=True, ignore_index=True
+            by="Timestamp (ns)",
+            axis=0,
+            ascending=True,
+            inplace=True,
+            kind="stable",
+            ignore_index=True,
         )
 
         # convert these to ints
diff --git a/pipit/readers/projections_reader.py b/pipit/readers/projections_reader.py
index 0a2044c..226b625 100644
--- a/pipit/readers/projections_reader.py
+++ b/pipit/readers/projections_reader.py
@@ -301,7 +301,12 @@ class ProjectionsReader:
         # Concatenate the dataframes list into dataframe containing entire trace
         trace_df = pd.concat(dataframes_list, ignore_index=True)
         trace_df.sort_values(
-            by="Timestamp (ns)", axis=0, ascending=True, inplace=True, ignore_index=True
+            by="Timestamp (ns)",
+            axis=0,
+            ascending=True,
+            inplace=True,
+            kind="stable",
+            ignore_index=True,
         )
 
         # categorical for memory savings
diff --git a/pipit/trace.py b/pipit/trace.py
index 5799ae3..c8b5b65 100644
--- a/pipit/trace.py
+++ b/pipit/trace.py
@@ -91,7 +91,12 @@ class Trace:
 
         # sort the dataframe by Timestamp
         events_dataframe.sort_values(
-            by="Timestamp (ns)", axis=0, ascending=True, inplace=True, ignore_index=True
+            by="Timestamp (ns)",
+            axis=0,
+            ascending=True,
+            inplace=True,
+            kind="stable",
+            ignore_index=True,
         )
 
         return Trace(None, events_dataframe)
-- 
2.43.0


From d0c57162c70908e90a53a7842cbf49df542e2921 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:09 +0000
Subject: [PATCH 07/34] fix: Nsight reader sets the Process column for
 single-process reports too

---
 pipit/readers/nsight_reader.py | 15 ++++++---------
 1 file changed, 6 insertions(+), 9 deletions(-)

diff --git a/pipit/readers/nsight_reader.py b/pipit/readers/nsight_reader.py
index a956fb8..8159f83 100644
--- a/pipit/readers/nsight_reader.py
+++ b/pipit/readers/nsight_reader.py
@@ -45,15 +45,12 @@ class NsightReader:
             # Converting Thread from float to int
             self.df["Thread"] = self.df["Thread"].astype(int)
 
-        # check if PID set is > 1, if so multiprocess or single process
-        if len(pid) > 1:
-            # Set Process column to PID
-            self.df["Process"] = self.df["PID"]
-            # Getting the PID set, creating a dictionary,
-            # and increment the values (0,1,2,...)
-            pid_dict = dict(zip(pid, range(0, len(pid))))
-            # Using the dictionary to replace the Process values
-            self.df["Process"].replace(pid_dict, inplace=True)
+        # Getting the PID set, creating a dictionary,
+        # and increment the values (0,1,2,...)
+        pid_dict = dict(zip(pid, range(0, len(pid))))
+        # Using the dictionary to set the Process values
+        # (a trace of a single process needs the column as well)
+        self.df["Process"] = self.df["PID"].map(pid_dict)
 
         # Copy self.df to create enter and leave rows
         df2 = self.df.copy()
-- 
2.43.0


From 8ee6ab1b1be5a9a269482bcf81975237604fbd64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:27 +0000
Subject: [PATCH 08/34] fix: Nsight reader orders events with equal timestamps
 so that touching ranges do not nest

---
 pipit/readers/nsight_reader.py | 20 +++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/pipit/readers/nsight_reader.py b/pipit/readers/nsight_reader.py
index 8159f83..1a215a6 100644
--- a/pipit/readers/nsight_reader.py
+++ b/pipit/readers/nsight_reader.py
@@ -3,6 +3,7 @@
 #
 # SPDX-License-Identifier: MIT
 
+import numpy as np
 import pandas as pd
 import pipit.trace
 
@@ -63,15 +64,28 @@ class NsightReader:
         df2["Event Type"] = "Leave"
         df2["Timestamp (ns)"] = df2["End (ns)"]
 
+        # Order the rows by timestamp. Rows with equal timestamps are ordered so
+        # that ranges nest: first leave the ranges that end (innermost first),
+        # then enter the ones that start (outermost first), and then leave the
+        # ranges of length zero
+        start, end = df2["Start (ns)"].to_numpy(), df2["End (ns)"].to_numpy()
+        num_ranges = len(df2)
+        order = np.lexsort(
+            (
+                np.concatenate([np.arange(num_ranges), -np.arange(num_ranges)]),
+                np.concatenate([-end, -start]),
+                np.concatenate([np.ones(num_ranges), np.where(start == end, 2, 0)]),
+                np.concatenate([start, end]),
+            )
+        )
+
         # Combine dataframes together
         self.df = pd.concat([self.df, df2])
 
         # Tidy Dataframe
         self.df.drop(["Start (ns)", "End (ns)"], axis=1, inplace=True)
 
-        self.df.sort_values(by="Timestamp (ns)", ascending=True, inplace=True)
-
-        self.df.reset_index(drop=True, inplace=True)
+        self.df = self.df.iloc[order].reset_index(drop=True)
 
         self.df = self.df.astype(
             {
-- 
2.43.0


From 7ac3eefb18b4119b39645682ff551bd69e50c1d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:27 +0000
Subject: [PATCH 09/34] fix: Projections user supplied notes have numeric times
 and event ids

---
 pipit/readers/projections_reader.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pipit/readers/projections_reader.py b/pipit/readers/projections_reader.py
index 226b625..cd7715b 100644
--- a/pipit/readers/projections_reader.py
+++ b/pipit/readers/projections_reader.py
@@ -421,7 +421,7 @@ class ProjectionsReader:
                     )
 
                 elif int(line_arr[0]) == ProjectionsConstants.USER_SUPPLIED_NOTE:
-                    time = line_arr[1] * 1000
+                    time = int(line_arr[1]) * 1000
                     note = ""
                     for i in range(2, len(line_arr)):
                         note = note + line_arr[i] + " "
@@ -437,9 +437,9 @@ class ProjectionsReader:
                     int(line_arr[0])
                     == ProjectionsConstants.USER_SUPPLIED_BRACKETED_NOTE
                 ):
-                    time = line_arr[1] * 1000
-                    end_time = line_arr[2] * 1000
-                    user_event_id = line_arr[3]
+                    time = int(line_arr[1]) * 1000
+                    end_time = int(line_arr[2]) * 1000
+                    user_event_id = int(line_arr[3])
                     note = ""
                     for i in range(4, len(line_arr)):
                         note = note + line_arr[i] + " "
-- 
2.43.0


From 04de54ea57359b05dfa3f365ac14c24ace58de9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:27 +0000
Subject: [PATCH 10/34] fix: Projections multicast records list their
 destinations and keep their details

---
 pipit/readers/projections_reader.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pipit/readers/projections_reader.py b/pipit/readers/projections_reader.py
index cd7715b..877704b 100644
--- a/pipit/readers/projections_reader.py
+++ b/pipit/readers/projections_reader.py
@@ -518,7 +518,7 @@ class ProjectionsReader:
                     send_time = int(line_arr[7]) * 1000
                     num_procs = int(line_arr[8])
                     dest_procs = []
-                    for i in (0, num_procs):
+                    for i in range(num_procs):
                         dest_procs.append(int(line_arr[9 + i]))
 
                     details = {
@@ -537,7 +537,7 @@ class ProjectionsReader:
                         "Instant",
                         time,
                         pe_num,
-                        "To " + str(num_procs) + "processors",
+                        details,
                     )
 
                 # Processing of chare (i.e. execution) ?
-- 
2.43.0


From 6fc90d6bc69b7cf3d293c6136b1e1a678a3f6aa4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:27 +0000
Subject: [PATCH 11/34] fix: Projections end of a user event pair no longer
 raises

---
 pipit/readers/projections_reader.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pipit/readers/projections_reader.py b/pipit/readers/projections_reader.py
index 877704b..77431d1 100644
--- a/pipit/readers/projections_reader.py
+++ b/pipit/readers/projections_reader.py
@@ -770,7 +770,7 @@ class ProjectionsReader:
                     }
 
                     _add_to_trace_dict(
-                        "User Event Pair", "Leave", time, pe_num, details
+                        data, "User Event Pair", "Leave", time, pe_num, details
                     )
 
                 # User stat (in code)
-- 
2.43.0


From 8a484eacff8b0c5bcbf0bc7720131367eacb5973 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:27 +0000
Subject: [PATCH 12/34] fix: Projections closing event of an unfinished log is
 not scaled to nanoseconds twice

---
 pipit/readers/projections_reader.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pipit/readers/projections_reader.py b/pipit/readers/projections_reader.py
index 77431d1..4a70fc3 100644
--- a/pipit/readers/projections_reader.py
+++ b/pipit/readers/projections_reader.py
@@ -796,7 +796,7 @@ class ProjectionsReader:
 
             # Making sure that the log file ends with END_COMPUTATION
             if len(data["Name"]) > 0 and data["Name"][-1] != "Computation":
-                time = data["Timestamp (ns)"][-1] * 1000
+                time = data["Timestamp (ns)"][-1]
                 _add_to_trace_dict(data, "Computation", "Leave", time, pe_num, None)
 
             log_file.close()
-- 
2.43.0


From 25bd253d78cfc0707decbc36070ee98eff774fd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:27 +0000
Subject: [PATCH 13/34] fix: Projections reader skips blank lines

---
 pipit/readers/projections_reader.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pipit/readers/projections_reader.py b/pipit/readers/projections_reader.py
index 4a70fc3..b78320e 100644
--- a/pipit/readers/projections_reader.py
+++ b/pipit/readers/projections_reader.py
@@ -136,6 +136,9 @@ class STSReader:
         for line in self.sts_file:
             line_arr = line.split()
 
+            if not line_arr:
+                continue
+
             # Note: I'm disregarding TOTAL_STATS and TOTAL_EVENTS, because
             #   projections reader disregards them
 
@@ -359,7 +362,7 @@ class ProjectionsReader:
             for line in log_file:
                 line_arr = line.split()
 
-                if not line_arr[0].isnumeric():
+                if not line_arr or not line_arr[0].isnumeric():
                     pass
 
                 elif int(line_arr[0]) == ProjectionsConstants.BEGIN_IDLE:
-- 
2.43.0


From 0adf2bcb76aeafa092cde734e896a1186eff416d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:00 +0000
Subject: [PATCH 14/34] fix: Projections closing event is not placed before the
 events it closes

---
 pipit/readers/projections_reader.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pipit/readers/projections_reader.py b/pipit/readers/projections_reader.py
index b78320e..21cc13a 100644
--- a/pipit/readers/projections_reader.py
+++ b/pipit/readers/projections_reader.py
@@ -799,7 +799,7 @@ class ProjectionsReader:
 
             # Making sure that the log file ends with END_COMPUTATION
             if len(data["Name"]) > 0 and data["Name"][-1] != "Computation":
-                time = data["Timestamp (ns)"][-1]
+                time = max(data["Timestamp (ns)"])
                 _add_to_trace_dict(data, "Computation", "Leave", time, pe_num, None)
 
             log_file.close()
-- 
2.43.0


From 80b446e38b11572bb01a1fdaf10a3598bd642e51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:25 +0000
Subject: [PATCH 15/34] fix: OTF2 metric members may have identifiers of more
 than one digit

---
 pipit/readers/otf2_reader.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/pipit/readers/otf2_reader.py b/pipit/readers/otf2_reader.py
index 538ac3b..02afa40 100644
--- a/pipit/readers/otf2_reader.py
+++ b/pipit/readers/otf2_reader.py
@@ -211,9 +211,12 @@ class OTF2Reader:
             )
             metric_members = [] if len(metric_members) == 0 else metric_members[0]
 
-            # ids of metric members
+            # ids of metric members (ex: 12 for "MetricMember 12")
             metric_ids = list(
-                map(lambda metric_member: int(metric_member[-1]), metric_members)
+                map(
+                    lambda metric_member: int(metric_member.split(" ")[-1]),
+                    metric_members,
+                )
             )
 
             # names of metrics
-- 
2.43.0


From 5c97405450aef6d244ef12928272b82582823dd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:25 +0000
Subject: [PATCH 16/34] fix: OTF2 traces with several metric classes are read

---
 pipit/readers/otf2_reader.py | 41 ++++++++++++++++++++++--------------
 1 file changed, 25 insertions(+), 16 deletions(-)

diff --git a/pipit/readers/otf2_reader.py b/pipit/readers/otf2_reader.py
index 02afa40..cf5170d 100644
--- a/pipit/readers/otf2_reader.py
+++ b/pipit/readers/otf2_reader.py
@@ -201,15 +201,19 @@ class OTF2Reader:
             https://scorepci.pages.jsc.fz-juelich.de/otf2-pipelines/doc.r4707/python/basics.html#metrics
             """
 
-            # get members of metric class
-            metric_members = (
+            # get members of all metric classes
+            metric_classes = (
                 self.definitions.loc[
                     self.definitions["Definition Type"] == "MetricClass"
                 ]["Attributes"]
                 .map(lambda attr: attr["members"])
                 .values
             )
-            metric_members = [] if len(metric_members) == 0 else metric_members[0]
+            metric_members = [
+                metric_member
+                for metric_class in metric_classes
+                for metric_member in metric_class
+            ]
 
             # ids of metric members (ex: 12 for "MetricMember 12")
             metric_ids = list(
@@ -232,9 +236,9 @@ class OTF2Reader:
             # maps each metric to a list of its values
             metrics_dict = {metric_name: [] for metric_name in metric_names}
 
-            # used to keep track of time that the
-            # most recent metrics that were read at
-            prev_metric_time = -1
+            # used to keep track of the most recent metrics
+            # that were read and the time they were read at
+            prev_metrics, prev_metric_time = {}, -1
 
             # iterates through the events and processes them
             for loc_event in loc_events:
@@ -257,25 +261,30 @@ class OTF2Reader:
                         )
                         metric_values = event.values
 
-                        # append the values for the metrics
-                        # to their appropriate lists
-                        for i in range(len(metrics)):
-                            metrics_dict[metrics[i]].append(metric_values[i])
-
                         # store the metrics and their timestamp
+                        # (an event can be coupled with metrics
+                        # from more than one metric class)
+                        if event.time != prev_metric_time:
+                            prev_metrics = {}
+                        prev_metrics.update(zip(metrics, metric_values))
                         prev_metric_time = event.time
                     else:
                         # MetricClass metric events are synchronous
                         # and coupled with an enter or leave event that
                         # has the same timestamp
                         if event.time != prev_metric_time:
-                            # if the event is not paired with any metric, then
-                            # add placeholders for all the metric lists
-                            for metric in metric_names:
-                                metrics_dict[metric].append(float("nan"))
+                            prev_metrics = {}
+
+                        # append the values for the metrics to their
+                        # appropriate lists, and placeholders for those
+                        # metrics that the event is not paired with
+                        for metric in metrics_dict:
+                            metrics_dict[metric].append(
+                                prev_metrics.get(metric, float("nan"))
+                            )
 
                         # reset this as a metric event was not read
-                        prev_metric_time = -1
+                        prev_metrics, prev_metric_time = {}, -1
 
                         """
                         Below is code to read the primary information about the
-- 
2.43.0


From c0ce636bdb3a6da71d4ef9f0f500686c0c0b0c6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:39 +0000
Subject: [PATCH 17/34] fix: HPCToolkit source line numbers are 32 bits wide

---
 pipit/readers/hpctoolkit_reader.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pipit/readers/hpctoolkit_reader.py b/pipit/readers/hpctoolkit_reader.py
index a6cda33..95adc1e 100644
--- a/pipit/readers/hpctoolkit_reader.py
+++ b/pipit/readers/hpctoolkit_reader.py
@@ -708,7 +708,7 @@ class MetaReader:
                     flex[0:8], byteorder=self.byte_order, signed=self.signed
                 )
                 sub_flex_2 = int.from_bytes(
-                    flex[8:10], byteorder=self.byte_order, signed=self.signed
+                    flex[8:12], byteorder=self.byte_order, signed=self.signed
                 )
                 flex = flex[16:]
                 source_file_index = self.__get_source_file_index(sub_flex_1)
-- 
2.43.0


From 8e31ea91120bece392576895a036f6156b7f8acd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:39 +0000
Subject: [PATCH 18/34] fix: HPCToolkit strings may contain multi-byte
 characters

---
 pipit/readers/hpctoolkit_reader.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/pipit/readers/hpctoolkit_reader.py b/pipit/readers/hpctoolkit_reader.py
index 95adc1e..d67f952 100644
--- a/pipit/readers/hpctoolkit_reader.py
+++ b/pipit/readers/hpctoolkit_reader.py
@@ -276,7 +276,7 @@ class MetaReader:
         self.common_string_index_map: dict = {}
         for i in range(len(self.common_strings)):
             self.common_string_index_map[pointer_index] = i
-            pointer_index += len(self.common_strings[i]) + 1
+            pointer_index += len(self.common_strings[i].encode("UTF-8")) + 1
 
     def __get_load_modules_index(self, load_module_pointer: int) -> int:
         """
@@ -338,13 +338,13 @@ class MetaReader:
         and ending at the first occurence of the null character
         """
         self.file.seek(file_pointer)
-        name = ""
+        name = b""
         while True:
-            read = str(self.file.read(1), encoding="UTF-8")
-            if read == "\0":
+            read = self.file.read(1)
+            if read == b"\0":
                 break
             name += read
-        return name
+        return str(name, encoding="UTF-8")
 
     def get_identifier_name(self, kind: int):
         """
-- 
2.43.0


From 632392195cab0da7720ae29f0ef8b1f25ba79a64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:39 +0000
Subject: [PATCH 19/34] fix: HPCToolkit identifier tuples without a node
 identifier are read

---
 pipit/readers/hpctoolkit_reader.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pipit/readers/hpctoolkit_reader.py b/pipit/readers/hpctoolkit_reader.py
index d67f952..7265db3 100644
--- a/pipit/readers/hpctoolkit_reader.py
+++ b/pipit/readers/hpctoolkit_reader.py
@@ -969,8 +969,8 @@ class ProfileReader:
 
     def __clean_hit(self, tuples_map: dict) -> dict:
         # add None for information not present
-        if "Node" not in tuples_map:
-            tuples_map["Node"] = None
+        if "NODE" not in tuples_map:
+            tuples_map["NODE"] = None
         if "RANK" not in tuples_map:
             tuples_map["RANK"] = None
         if "THREAD" not in tuples_map:
-- 
2.43.0


From 937ecd807fa570957cab5ddb10692aa45ac493d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:39 +0000
Subject: [PATCH 20/34] fix: HPCToolkit functions without a name get the
 fallback name

---
 pipit/readers/hpctoolkit_reader.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pipit/readers/hpctoolkit_reader.py b/pipit/readers/hpctoolkit_reader.py
index 7265db3..c994300 100644
--- a/pipit/readers/hpctoolkit_reader.py
+++ b/pipit/readers/hpctoolkit_reader.py
@@ -146,7 +146,10 @@ class MetaReader:
             # loop construct
             function_string = "loop"
             loop_type = True
-        elif function_index is not None:
+        elif (
+            function_index is not None
+            and self.functions_list[function_index]["string_index"] is not None
+        ):
             # The function map
             function = self.functions_list[function_index]
             # current_function_map = {"string_index": function_name_index, \
-- 
2.43.0


From 4754704fc09d8c179e4f6e0387997a1206b07b85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:55 +0000
Subject: [PATCH 21/34] fix: detect_pattern computes its default metric like
 the other analyses

---
 pipit/trace.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pipit/trace.py b/pipit/trace.py
index c8b5b65..ea4b912 100644
--- a/pipit/trace.py
+++ b/pipit/trace.py
@@ -827,6 +827,10 @@ class Trace:
     ):
         import stumpy
 
+        # calculate exclusive time if needed
+        if metric == "time.exc":
+            self.calc_exc_metrics(["Timestamp (ns)"])
+
         enter_events = self.events[
             (self.events["Name"] == start_event)
             & (self.events["Event Type"] == "Enter")
-- 
2.43.0


From 858384e7acd574d5486222037d629284c1820233 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:55 +0000
Subject: [PATCH 22/34] fix: detect_pattern reports only the matched calls, not
 all events at their times

---
 pipit/trace.py | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/pipit/trace.py b/pipit/trace.py
index ea4b912..0b803a0 100644
--- a/pipit/trace.py
+++ b/pipit/trace.py
@@ -871,11 +871,7 @@ class Trace:
         for idx in indices[0]:
             end_idx = idx + window_size
 
-            match_original = self.events.loc[
-                self.events["Timestamp (ns)"].isin(
-                    filtered_df.iloc[idx:end_idx]["Timestamp (ns)"].values
-                )
-            ]
+            match_original = self.events.loc[filtered_df.index[idx:end_idx]]
             patterns.append(match_original)
 
         return patterns
-- 
2.43.0


From 03e22d8e1c578397c9c484bd091fcf10f2a4fdbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:30 +0000
Subject: [PATCH 23/34] fix: Projections log that ends right after the begin of
 the computation is closed too

---
 pipit/readers/projections_reader.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pipit/readers/projections_reader.py b/pipit/readers/projections_reader.py
index 21cc13a..002a2ab 100644
--- a/pipit/readers/projections_reader.py
+++ b/pipit/readers/projections_reader.py
@@ -798,7 +798,9 @@ class ProjectionsReader:
                     )
 
             # Making sure that the log file ends with END_COMPUTATION
-            if len(data["Name"]) > 0 and data["Name"][-1] != "Computation":
+            if len(data["Name"]) > 0 and (
+                data["Name"][-1] != "Computation" or data["Event Type"][-1] != "Leave"
+            ):
                 time = max(data["Timestamp (ns)"])
                 _add_to_trace_dict(data, "Computation", "Leave", time, pe_num, None)
 
-- 
2.43.0


From 44ee285d5b7bb83bf2cc98e3d655969d6ecf3444 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:18 +0000
Subject: [PATCH 24/34] fix: number threads from 0 per process when OTF2
 location numbers are not contiguous

---
 pipit/readers/otf2_reader.py | 36 ++++++++++++++++++------------------
 1 file changed, 18 insertions(+), 18 deletions(-)

diff --git a/pipit/readers/otf2_reader.py b/pipit/readers/otf2_reader.py
index cf5170d..117a57d 100644
--- a/pipit/readers/otf2_reader.py
+++ b/pipit/readers/otf2_reader.py
@@ -294,12 +294,9 @@ class OTF2Reader:
                         process_id = loc.group._ref
                         process_ids.append(process_id)
 
-                        # subtract the minimum location number of a process
-                        # from the location number to get threads numbered
-                        # 0 to (num_threads per process - 1) for each process.
-                        thread_ids.append(
-                            loc._ref - self.process_threads_map[process_id]
-                        )
+                        # threads are numbered 0 to (num_threads per process - 1)
+                        # for each process, in order of their location numbers
+                        thread_ids.append(self.location_threads_map[loc._ref])
 
                         # type of event - enter, leave, or other types
                         event_type = str(type(event))[20:-2]
@@ -366,10 +363,12 @@ class OTF2Reader:
         DataFrame
         """
 
-        # OTF2 stores locations numbered from 0 to the (total number of threads - 1)
-        # across all processes. This dict will help us convert those to be orderered
-        # from 0 to (number of threads for each process - 1) per process instead.
-        self.process_threads_map = dict()
+        # OTF2 numbers locations across all processes, and not necessarily
+        # contiguously (ex: Score-P puts the thread in the upper 32 bits).
+        # This dict will help us convert those to be orderered from 0 to
+        # (number of threads for each process - 1) per process instead.
+        self.location_threads_map = dict()
+        process_locations = dict()
 
         # ids are the _ref attribute of an object
         # all objects stored in a reference registry
@@ -400,7 +399,7 @@ class OTF2Reader:
                 then def_object is a single region being looked at
                 """
                 for def_object in def_attribute.__iter__():
-                    # add to process threads map dict if you encounter a new location
+                    # keep track of the locations of each process (location group)
                     if (
                         key == "_locations"
                         and str(def_object.type) == "LocationType.CPU_THREAD"
@@ -410,13 +409,9 @@ class OTF2Reader:
                             def_object.group._ref,
                         )
 
-                        # each process (location group) will be mapped to its
-                        # minimum location number, which we will use to number threads
-                        # appropriately by subtracting that min from its location nums
-                        if process_num not in self.process_threads_map:
-                            self.process_threads_map[process_num] = location_num
-                        elif location_num < self.process_threads_map[process_num]:
-                            self.process_threads_map[process_num] = location_num
+                        process_locations.setdefault(process_num, []).append(
+                            location_num
+                        )
 
                     if hasattr(def_object, "_ref"):
                         # only add ids for those definitions that have it
@@ -433,6 +428,11 @@ class OTF2Reader:
                     # definitions DataFrame for
                     attributes.append(self.fields_to_dict(def_object))
 
+        # threads are ordered by their location numbers within each process
+        for locations in process_locations.values():
+            for thread_num, location_num in enumerate(sorted(locations)):
+                self.location_threads_map[location_num] = thread_num
+
         # return the definitions as a DataFrame
         definitions_dataframe = pd.DataFrame(
             {"Definition Type": def_name, "ID": def_id, "Attributes": attributes}
-- 
2.43.0


From a8f1781168ab396f4565e97ed74035818fe3b246 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:18 +0000
Subject: [PATCH 25/34] fix: keep OTF2 location group numbers that do not fit
 32 bits

---
 pipit/readers/otf2_reader.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pipit/readers/otf2_reader.py b/pipit/readers/otf2_reader.py
index 117a57d..7feebac 100644
--- a/pipit/readers/otf2_reader.py
+++ b/pipit/readers/otf2_reader.py
@@ -496,7 +496,7 @@ class OTF2Reader:
         # (sometimes they get converted to floats
         #  while concatenating dataframes)
         events_dataframe = events_dataframe.astype(
-            {"Thread": "int32", "Process": "int32"}
+            {"Thread": "int64", "Process": "int64"}
         )
 
         # using categorical dtypes for memory optimization
-- 
2.43.0


From 4a68f207eabc6116a1aa167de86e5442fdfe9b4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:18 +0000
Subject: [PATCH 26/34] fix: keep process numbers of a CSV that do not fit 32
 bits

---
 pipit/trace.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pipit/trace.py b/pipit/trace.py
index 0b803a0..a341dac 100644
--- a/pipit/trace.py
+++ b/pipit/trace.py
@@ -78,7 +78,7 @@ class Trace:
             )
 
         # ensure that ranks are ints
-        events_dataframe = events_dataframe.astype({"Process": "int32"})
+        events_dataframe = events_dataframe.astype({"Process": "int64"})
 
         # make certain columns categorical
         events_dataframe = events_dataframe.astype(
-- 
2.43.0


From 0d69dbb7390e6a619c3438b8cdfddc44b65ba019 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:25 +0000
Subject: [PATCH 27/34] fix: report truncated HPCToolkit databases instead of
 reading zeros or looping forever

---
 pipit/readers/hpctoolkit_reader.py | 20 +++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/pipit/readers/hpctoolkit_reader.py b/pipit/readers/hpctoolkit_reader.py
index c994300..c1ac979 100644
--- a/pipit/readers/hpctoolkit_reader.py
+++ b/pipit/readers/hpctoolkit_reader.py
@@ -4,11 +4,25 @@
 # SPDX-License-Identifier: MIT
 
 
+import io
 import pandas as pd
 import pipit.trace
 from pipit.graph import Graph, Node
 
 
+class DatabaseFile(io.BufferedReader):
+    """A .db file, in which running out of bytes is an error (ex: a truncated file)"""
+
+    def __init__(self, file_location):
+        super().__init__(io.FileIO(file_location))
+
+    def read(self, size) -> bytes:
+        data = super().read(size)
+        if len(data) < size:
+            raise EOFError("unexpected end of file in " + self.name)
+        return data
+
+
 class MetaReader:
     # adds new context id and return new nid
     def _add_context_id(self, context_id) -> int:
@@ -18,7 +32,7 @@ class MetaReader:
 
     def __init__(self, file_location):
         # open the file to ready in binary mode (rb)
-        self.file = open(file_location, "rb")
+        self.file = DatabaseFile(file_location)
 
         # setting necessary read options
         self.byte_order = "little"
@@ -811,7 +825,7 @@ class ProfileReader:
         self.meta_reader: MetaReader = meta_reader
 
         # open the file to ready in binary mode (rb)
-        self.file = open(file_location, "rb")
+        self.file = DatabaseFile(file_location)
 
         # setting necessary read options
         self.byte_order = "little"
@@ -1028,7 +1042,7 @@ class TraceReader:
         self, file_location: str, meta_reader: MetaReader, profile_reader: ProfileReader
     ) -> None:
         # open file
-        self.file = open(file_location, "rb")
+        self.file = DatabaseFile(file_location)
         self.meta_reader = meta_reader
         self.profile_reader = profile_reader
 
-- 
2.43.0


From 502ea37e2604e93a9a6cd806cea93eadfca32cd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:37 +0000
Subject: [PATCH 28/34] fix: report errors of the OTF2 library while reading
 events instead of waiting forever

---
 pipit/readers/otf2_reader.py | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/pipit/readers/otf2_reader.py b/pipit/readers/otf2_reader.py
index 7feebac..6867dd8 100644
--- a/pipit/readers/otf2_reader.py
+++ b/pipit/readers/otf2_reader.py
@@ -4,6 +4,7 @@
 # SPDX-License-Identifier: MIT
 
 import otf2
+import _otf2
 import numpy as np
 import pandas as pd
 import multiprocessing as mp
@@ -445,6 +446,19 @@ class OTF2Reader:
 
         return definitions_dataframe
 
+    def events_reader_task(self, rank_size):
+        """
+        Runs the events reader in a process of the pool
+
+        Errors of the OTF2 library can be pickled but not unpickled, so
+        the pool would never get to know about them if they were not converted
+        """
+
+        try:
+            return self.events_reader(rank_size)
+        except _otf2.Error as error:
+            raise RuntimeError(str(error)) from error
+
     def read_events(self):
         """
         Writes the events to a Pandas DataFrame
@@ -458,7 +472,7 @@ class OTF2Reader:
 
         # list of dataframes returned by the processes pool
         events_dataframes = pool.map(
-            self.events_reader, [(rank, pool_size) for rank in range(pool_size)]
+            self.events_reader_task, [(rank, pool_size) for rank in range(pool_size)]
         )
 
         pool.close()
-- 
2.43.0


From 8be6a62acc8c97900c1b3b6b0ab3ac89f78d2779 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:02 +0000
Subject: [PATCH 29/34] fix: match and nest the calls of events that have no
 thread

---
 pipit/trace.py    | 20 ++++++++++++++++----
 pipit/util/cct.py |  9 +++++++--
 2 files changed, 23 insertions(+), 6 deletions(-)

diff --git a/pipit/trace.py b/pipit/trace.py
index a341dac..9466c71 100644
--- a/pipit/trace.py
+++ b/pipit/trace.py
@@ -124,7 +124,13 @@ class Trace:
 
             # list of processes and/or threads to iterate over
             if "Thread" in self.events.columns:
-                exec_locations = set(zip(self.events["Process"], self.events["Thread"]))
+                # number the threads, because events can be without one (ex: GPU
+                # streams of HPCToolkit) and missing values don't compare equal
+                threads = pd.Series(
+                    pd.factorize(self.events["Thread"])[0], self.events.index
+                )
+                exec_locations = set(zip(self.events["Process"], threads))
+                threads = threads[enter_leave_df.index]
                 has_thread = True
             else:
                 exec_locations = set(self.events["Process"])
@@ -136,7 +142,7 @@ class Trace:
                     curr_process, curr_thread = curr_loc
                     filtered_df = enter_leave_df.loc[
                         (enter_leave_df["Process"] == curr_process)
-                        & (enter_leave_df["Thread"] == curr_thread)
+                        & (threads == curr_thread)
                     ]
                 else:
                     filtered_df = enter_leave_df.loc[
@@ -225,7 +231,13 @@ class Trace:
 
             # list of processes and/or threads to iterate over
             if "Thread" in self.events.columns:
-                exec_locations = set(zip(self.events["Process"], self.events["Thread"]))
+                # number the threads, because events can be without one (ex: GPU
+                # streams of HPCToolkit) and missing values don't compare equal
+                threads = pd.Series(
+                    pd.factorize(self.events["Thread"])[0], self.events.index
+                )
+                exec_locations = set(zip(self.events["Process"], threads))
+                threads = threads[enter_leave_df.index]
                 has_thread = True
             else:
                 exec_locations = set(self.events["Process"])
@@ -237,7 +249,7 @@ class Trace:
                     curr_process, curr_thread = curr_loc
                     filtered_df = enter_leave_df.loc[
                         (enter_leave_df["Process"] == curr_process)
-                        & (enter_leave_df["Thread"] == curr_thread)
+                        & (threads == curr_thread)
                     ]
                 else:
                     filtered_df = enter_leave_df.loc[
diff --git a/pipit/util/cct.py b/pipit/util/cct.py
index 4aa95a6..490c098 100644
--- a/pipit/util/cct.py
+++ b/pipit/util/cct.py
@@ -3,6 +3,7 @@
 #
 # SPDX-License-Identifier: MIT
 
+import pandas as pd
 from pipit.graph import Graph, Node
 
 
@@ -29,7 +30,11 @@ def create_cct(events):
 
     # list of processes and/or threads to iterate over
     if "Thread" in events.columns:
-        exec_locations = set(zip(events["Process"], events["Thread"]))
+        # number the threads, because events can be without one (ex: GPU
+        # streams of HPCToolkit) and missing values don't compare equal
+        threads = pd.Series(pd.factorize(events["Thread"])[0], events.index)
+        exec_locations = set(zip(events["Process"], threads))
+        threads = threads[enter_leave_df.index]
         has_thread = True
     else:
         exec_locations = set(events["Process"])
@@ -41,7 +46,7 @@ def create_cct(events):
             curr_process, curr_thread = curr_loc
             filtered_df = enter_leave_df.loc[
                 (enter_leave_df["Process"] == curr_process)
-                & (enter_leave_df["Thread"] == curr_thread)
+                & (threads == curr_thread)
             ]
         else:
             filtered_df = enter_leave_df.loc[(enter_leave_df["Process"] == curr_loc)]
-- 
2.43.0


From 8bdba3a73af567769c8440c18c2ede081ba77c2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:27 +0000
Subject: [PATCH 30/34] fix: HPCToolkit runs without ranks are a single process

---
 pipit/readers/hpctoolkit_reader.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pipit/readers/hpctoolkit_reader.py b/pipit/readers/hpctoolkit_reader.py
index c1ac979..5ee392c 100644
--- a/pipit/readers/hpctoolkit_reader.py
+++ b/pipit/readers/hpctoolkit_reader.py
@@ -1367,6 +1367,10 @@ class HPCToolkitReader:
         # Need to sort df by timestamp then index
         # (since many events occur at the same timestamp)
 
+        # a run without ranks (ex: threads only) is a single process
+        if trace_df["Process"].isna().all():
+            trace_df["Process"] = 0
+
         # rename the index axis, so we can sort with it
         trace_df.rename_axis("index", inplace=True)
 
-- 
2.43.0


From 5c16da829608538acfa097df6ab0a0c3d13ec0ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:37 +0000
Subject: [PATCH 31/34] fix: names that look like numbers or missing values
 stay names (CSV, Nsight)

---
 pipit/readers/nsight_reader.py | 3 ++-
 pipit/trace.py                 | 5 ++++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/pipit/readers/nsight_reader.py b/pipit/readers/nsight_reader.py
index 1a215a6..edadc5b 100644
--- a/pipit/readers/nsight_reader.py
+++ b/pipit/readers/nsight_reader.py
@@ -23,7 +23,8 @@ class NsightReader:
         """
 
         # Read in csv
-        self.df = pd.read_csv(self.file_name)
+        # (names are text, also those that look like a number or a missing value)
+        self.df = pd.read_csv(self.file_name, converters={"Name": str})
 
         # Grab the set of the column PID columns to see if
         # mutliprocess and convert to a list
diff --git a/pipit/trace.py b/pipit/trace.py
index 9466c71..c4ff866 100644
--- a/pipit/trace.py
+++ b/pipit/trace.py
@@ -68,7 +68,10 @@ class Trace:
 
     @staticmethod
     def from_csv(filename):
-        events_dataframe = pd.read_csv(filename, skipinitialspace=True)
+        # names are text, also those that look like a number or a missing value
+        events_dataframe = pd.read_csv(
+            filename, skipinitialspace=True, converters={"Name": str}
+        )
 
         # if timestamps are in seconds, convert them to nanoseconds
         if "Timestamp (s)" in events_dataframe.columns:
-- 
2.43.0


From 989acecd9f581a96eb1ee2e32cc4f5561b1b74b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:18 +0000
Subject: [PATCH 32/34] fix: matching timestamps stay exact when some events
 are unmatched

---
 pipit/trace.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/pipit/trace.py b/pipit/trace.py
index c4ff866..b784982 100644
--- a/pipit/trace.py
+++ b/pipit/trace.py
@@ -118,7 +118,7 @@ class Trace:
 
         if "_matching_event" not in self.events.columns:
             matching_events = [float("nan")] * len(self.events)
-            matching_times = [float("nan")] * len(self.events)
+            matching_times = [None] * len(self.events)
 
             # only pairing enter and leave rows
             enter_leave_df = self.events.loc[
@@ -199,6 +199,14 @@ class Trace:
                         else:
                             continue
 
+            # integer timestamps stay exact also if some events are unmatched
+            integer_times = pd.api.types.is_signed_integer_dtype(
+                self.events["Timestamp (ns)"]
+            )
+            matching_times = pd.array(
+                matching_times, dtype="Int64" if integer_times else "float64"
+            )
+
             self.events["_matching_event"] = matching_events
             self.events["_matching_timestamp"] = matching_times
 
-- 
2.43.0


From 32895211c3c32cf7b8ebb160663d6bebe75926bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:57 +0000
Subject: [PATCH 33/34] fix: HPCToolkit call paths deeper than Python's
 recursion limit

---
 pipit/graph.py                     |  2 +-
 pipit/readers/hpctoolkit_reader.py | 43 ++++++++++++++++++++++--------
 2 files changed, 33 insertions(+), 12 deletions(-)

diff --git a/pipit/graph.py b/pipit/graph.py
index 0e94063..e322651 100644
--- a/pipit/graph.py
+++ b/pipit/graph.py
@@ -76,7 +76,7 @@ class Node:
         if self.parent is None:
             return 0
         else:
-            return 1 + self.parent._calculate_level()
+            return 1 + self.parent.get_level()
 
     def __eq__(self, obj) -> bool:
         if isinstance(obj, Node):
diff --git a/pipit/readers/hpctoolkit_reader.py b/pipit/readers/hpctoolkit_reader.py
index 5ee392c..4ddef1c 100644
--- a/pipit/readers/hpctoolkit_reader.py
+++ b/pipit/readers/hpctoolkit_reader.py
@@ -637,14 +637,29 @@ class MetaReader:
         parent_context_id: int,
     ) -> None:
         """
-        Recursive function to read all child contexts and add it to the CCT
+        Function to read all child contexts and add it to the CCT
         """
 
-        if total_size <= 0 or context_array_pointer <= 0:
-            return
-        self.file.seek(context_array_pointer)
-        index = 0
-        while index < total_size:
+        # arrays of contexts that are yet to be read
+        # (not recursive, because call paths can be deeper than the
+        # recursion limit of Python)
+        pending = [
+            (context_array_pointer, total_size, parent_node, parent_context_id)
+        ]
+
+        while pending:
+            (
+                context_array_pointer,
+                total_size,
+                parent_node,
+                parent_context_id,
+            ) = pending.pop()
+
+            if total_size <= 0 or context_array_pointer <= 0:
+                continue
+            self.file.seek(context_array_pointer)
+            index = 0
+
             # Reading information about child contexts (as in the children of
             # this context)
             # Total size of *pChildren (I call pChildren children_pointer),
@@ -809,12 +824,18 @@ class MetaReader:
 
             self.context_map[context_id] = context
 
-            # recursively call this function to add more children
-            return_address = self.file.tell()
-            self.__read_children_contexts(
-                children_pointer, children_size, next_parent_node, context_id
+            # read the children of this context, and then its next siblings
+            pending.append(
+                (
+                    context_array_pointer + index,
+                    total_size - index,
+                    parent_node,
+                    parent_context_id,
+                )
+            )
+            pending.append(
+                (children_pointer, children_size, next_parent_node, context_id)
             )
-            self.file.seek(return_address)
 
 
 class ProfileReader:
-- 
2.43.0


From c045a7dc97c6cbc29e6a5834bfcfad119bd97e9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:41 +0000
Subject: [PATCH 34/34] fix: end the pool of reader processes explicitly, also
 when reading fails

---
 pipit/readers/otf2_reader.py        | 14 ++++++++------
 pipit/readers/projections_reader.py | 13 +++++++------
 2 files changed, 15 insertions(+), 12 deletions(-)

diff --git a/pipit/readers/otf2_reader.py b/pipit/readers/otf2_reader.py
index 6867dd8..cabc30c 100644
--- a/pipit/readers/otf2_reader.py
+++ b/pipit/readers/otf2_reader.py
@@ -470,12 +470,14 @@ class OTF2Reader:
         # using the multiprocessing library
         pool_size, pool = self.num_processes, mp.Pool(self.num_processes)
 
-        # list of dataframes returned by the processes pool
-        events_dataframes = pool.map(
-            self.events_reader_task, [(rank, pool_size) for rank in range(pool_size)]
-        )
-
-        pool.close()
+        # (leaving the end of the pool to the garbage collector when reading
+        # fails can deadlock, and the processes of the pool would stay forever)
+        with pool:
+            # list of dataframes returned by the processes pool
+            events_dataframes = pool.map(
+                self.events_reader_task,
+                [(rank, pool_size) for rank in range(pool_size)],
+            )
 
         # merges the dataframe into one events dataframe
         events_dataframe = pd.concat(events_dataframes)
diff --git a/pipit/readers/projections_reader.py b/pipit/readers/projections_reader.py
index 002a2ab..abe943d 100644
--- a/pipit/readers/projections_reader.py
+++ b/pipit/readers/projections_reader.py
@@ -294,12 +294,13 @@ class ProjectionsReader:
 
         pool_size, pool = self.num_processes, mp.Pool(self.num_processes)
 
-        # Read each log file and store as list of dataframes
-        dataframes_list = pool.map(
-            self._read_log_file, [(rank, pool_size) for rank in range(pool_size)]
-        )
-
-        pool.close()
+        # (leaving the end of the pool to the garbage collector when reading
+        # fails can deadlock, and the processes of the pool would stay forever)
+        with pool:
+            # Read each log file and store as list of dataframes
+            dataframes_list = pool.map(
+                self._read_log_file, [(rank, pool_size) for rank in range(pool_size)]
+            )
 
         # Concatenate the dataframes list into dataframe containing entire trace
         trace_df = pd.concat(dataframes_list, ignore_index=True)
-- 
2.43.0

