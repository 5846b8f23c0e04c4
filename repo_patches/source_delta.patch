From 8355713ead6bbef892b5c944118293196bfd66f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:58 +0000
Subject: [PATCH 01/39] fix: propagate simulator failures during initialization

Exceptions thrown by a simulator during setup, iteration or simulation
start left the worker thread and terminated the process. Collect them
and throw to the caller, like do_step() already does.
---
 src/cosim/algorithm/fixed_step_algorithm.cpp | 51 +++++++++++++-------
 1 file changed, 33 insertions(+), 18 deletions(-)

diff --git a/src/cosim/algorithm/fixed_step_algorithm.cpp b/src/cosim/algorithm/fixed_step_algorithm.cpp
index d59ae4e..95ce195 100644
--- a/src/cosim/algorithm/fixed_step_algorithm.cpp
+++ b/src/cosim/algorithm/fixed_step_algorithm.cpp
@@ -151,32 +151,19 @@ public:
 
     void initialize()
     {
-        for (auto& s : simulators_) {
-            pool_.submit([&] {
-                s.second.sim->setup(startTime_, stopTime_, std::nullopt);
-            });
-        }
-        pool_.wait_for_tasks_to_finish();
+        for_each_simulator([&](simulator& s) {
+            s.setup(startTime_, stopTime_, std::nullopt);
+        });
 
         // Run N iterations of the simulators' and functions' step/calculation
         // procedures, where N is the number of simulators in the system,
         // to propagate initial values.
         for (std::size_t i = 0; i < simulators_.size() + functions_.size(); ++i) {
-            for (auto& s : simulators_) {
-                pool_.submit([&] {
-                    s.second.sim->do_iteration();
-                });
-            }
-            pool_.wait_for_tasks_to_finish();
+            for_each_simulator([](simulator& s) { s.do_iteration(); });
             calculate_and_transfer();
         }
 
-        for (auto& s : simulators_) {
-            pool_.submit([&] {
-                s.second.sim->start_simulation();
-            });
-        }
-        pool_.wait_for_tasks_to_finish();
+        for_each_simulator([](simulator& s) { s.start_simulation(); });
         calculate_and_transfer();
     }
 
@@ -273,6 +260,34 @@ private:
         std::vector<connection_fs> outgoingSimConnections;
     };
 
+    // Runs `task` for every simulator on the worker threads, waits for all of
+    // them to finish, and throws if it failed for any of them.
+    template<typename F>
+    void for_each_simulator(F task)
+    {
+        std::mutex m;
+        bool failed = false;
+        std::stringstream errMessages;
+
+        for (auto& s : simulators_) {
+            pool_.submit([&] {
+                try {
+                    task(*s.second.sim);
+                } catch (std::exception& ex) {
+                    std::lock_guard<std::mutex> lck(m);
+                    errMessages
+                        << s.second.sim->name() << ": "
+                        << ex.what() << '\n';
+                    failed = true;
+                }
+            });
+        }
+        pool_.wait_for_tasks_to_finish();
+        if (failed) {
+            throw error(make_error_code(errc::simulation_error), errMessages.str());
+        }
+    }
+
     void disconnect_simulator_variables(simulator_index i)
     {
         for (auto& s : simulators_) {
-- 
2.43.0


From c6571aa36e87e644f730c92650952d1203633d1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:58 +0000
Subject: [PATCH 02/39] fix: report execution as stopped when simulate_until()
 throws

---
 src/cosim/execution.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/cosim/execution.cpp b/src/cosim/execution.cpp
index 6f6b6bf..930a583 100644
--- a/src/cosim/execution.cpp
+++ b/src/cosim/execution.cpp
@@ -10,6 +10,8 @@
 #include "cosim/slave_simulator.hpp"
 #include "cosim/utility/utility.hpp"
 
+#include <gsl/util>
+
 #include <algorithm>
 #include <atomic>
 #include <sstream>
@@ -146,15 +148,14 @@ public:
     bool simulate_until(std::optional<time_point> endTime)
     {
         stopped_ = false;
+        const auto notRunning = gsl::finally([this] { stopped_ = true; });
         timer_.start(currentTime_);
         duration stepSize;
         do {
             stepSize = step();
             timer_.sleep(currentTime_);
         } while (!stopped_ && !timed_out(endTime, currentTime_, stepSize));
-        bool isStopped = stopped_;
-        stopped_ = true;
-        return !isStopped;
+        return !stopped_;
     }
 
     std::future<bool> simulate_until_async(std::optional<time_point> endTime)
-- 
2.43.0


From 4ae9a126127ae54d9220277eaca88c823de1ca96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:16 +0000
Subject: [PATCH 03/39] fix: do not lose a stop request made right after
 simulate_until_async()

---
 src/cosim/execution.cpp | 35 ++++++++++++++++++++++++-----------
 1 file changed, 24 insertions(+), 11 deletions(-)

diff --git a/src/cosim/execution.cpp b/src/cosim/execution.cpp
index 930a583..a7b92b8 100644
--- a/src/cosim/execution.cpp
+++ b/src/cosim/execution.cpp
@@ -148,21 +148,22 @@ public:
     bool simulate_until(std::optional<time_point> endTime)
     {
         stopped_ = false;
-        const auto notRunning = gsl::finally([this] { stopped_ = true; });
-        timer_.start(currentTime_);
-        duration stepSize;
-        do {
-            stepSize = step();
-            timer_.sleep(currentTime_);
-        } while (!stopped_ && !timed_out(endTime, currentTime_, stepSize));
-        return !stopped_;
+        return run_until(endTime);
     }
 
     std::future<bool> simulate_until_async(std::optional<time_point> endTime)
     {
-        return std::async(std::launch::async, [this, endTime]{
-            return simulate_until(endTime);
-        });
+        // The flag is cleared here rather than in the new thread, so that a
+        // stop request made right after this call is not lost.
+        stopped_ = false;
+        try {
+            return std::async(std::launch::async, [this, endTime] {
+                return run_until(endTime);
+            });
+        } catch (...) {
+            stopped_ = true;
+            throw;
+        }
     }
 
     void stop_simulation()
@@ -304,6 +305,18 @@ private:
         }
     }
 
+    bool run_until(std::optional<time_point> endTime)
+    {
+        const auto notRunning = gsl::finally([this] { stopped_ = true; });
+        timer_.start(currentTime_);
+        duration stepSize;
+        do {
+            stepSize = step();
+            timer_.sleep(currentTime_);
+        } while (!stopped_ && !timed_out(endTime, currentTime_, stepSize));
+        return !stopped_;
+    }
+
     static bool timed_out(std::optional<time_point> endTime, time_point currentTime, duration stepSize)
     {
         constexpr double relativeTolerance = 0.01;
-- 
2.43.0


From 9c100c6096727839fb5983277028804b186a6dec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:24 +0000
Subject: [PATCH 04/39] fix: refuse output modifiers for variables that are not
 exposed

The modifier was installed on the first exposed variable instead, or
written out of bounds if there was none.
---
 src/cosim/slave_simulator.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/cosim/slave_simulator.cpp b/src/cosim/slave_simulator.cpp
index f985ec2..1756f34 100644
--- a/src/cosim/slave_simulator.cpp
+++ b/src/cosim/slave_simulator.cpp
@@ -145,7 +145,14 @@ struct get_variable_cache
 
     void set_modifier(value_reference r, std::function<T(T, duration)> m)
     {
-        modifiers[indexMapping[r]] = m;
+        const auto it = indexMapping.find(r);
+        if (it == indexMapping.end()) {
+            std::ostringstream oss;
+            oss << "Variable with reference " << r
+                << " not found in exposed variables. Variables must be exposed before calling set_modifier()";
+            throw std::out_of_range(oss.str());
+        }
+        modifiers[it->second] = m;
     }
 
     void run_modifiers(duration deltaT)
-- 
2.43.0


From 548177e8487ee1f651e1c8b3a71ebbebf7341064 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:24 +0000
Subject: [PATCH 05/39] fix: check and track simulator state in do_iteration()

---
 src/cosim/slave_simulator.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/cosim/slave_simulator.cpp b/src/cosim/slave_simulator.cpp
index 1756f34..573fff5 100644
--- a/src/cosim/slave_simulator.cpp
+++ b/src/cosim/slave_simulator.cpp
@@ -790,6 +790,8 @@ void slave_simulator::setup(
 
 void slave_simulator::do_iteration()
 {
+    COSIM_PRECONDITION(state_ == slave_state::initialisation);
+    state_guard guard(state_);
     return pimpl_->do_iteration();
 }
 
-- 
2.43.0


From 9a2d77f8654e1484b419694c7d1a40666d6bea6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:24 +0000
Subject: [PATCH 06/39] fix: join threads when thread_pool construction fails

Otherwise the joinable threads are destroyed, which terminates the
process.
---
 src/cosim/utility/thread_pool.hpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/cosim/utility/thread_pool.hpp b/src/cosim/utility/thread_pool.hpp
index 6765b03..1b332c4 100644
--- a/src/cosim/utility/thread_pool.hpp
+++ b/src/cosim/utility/thread_pool.hpp
@@ -70,7 +70,14 @@ public:
                 threads_.emplace_back(&thread_pool::worker_thread, this);
             }
         } catch (...) {
-            done_ = true;
+            {
+                std::lock_guard<std::mutex> lck(m_);
+                done_ = true;
+            }
+            cv_worker_.notify_all();
+            for (auto& thread : threads_) {
+                thread.join();
+            }
             throw;
         }
     }
-- 
2.43.0


From 566decea7767202d2197f63b2cbe5cb0b0872d6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:07 +0000
Subject: [PATCH 07/39] fix: refuse to connect an input to both a simulator and
 a function

---
 src/cosim/execution.cpp | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/cosim/execution.cpp b/src/cosim/execution.cpp
index a7b92b8..73c1936 100644
--- a/src/cosim/execution.cpp
+++ b/src/cosim/execution.cpp
@@ -270,13 +270,24 @@ private:
         validate_variable(output, variable_causality::output);
         validate_variable(input, variable_causality::input);
 
-        if (connections.count(input)) {
+        if (is_connected(input)) {
             throw std::logic_error("Input variable already connected");
         }
         algorithm_->connect_variables(output, input);
         connections.emplace(input, output);
     }
 
+    // An input variable may be connected to either a simulator or a function.
+    bool is_connected(variable_id input) const
+    {
+        return ssConnections_.count(input) || fsConnections_.count(input);
+    }
+
+    bool is_connected(function_io_id input) const
+    {
+        return sfConnections_.count(input) > 0;
+    }
+
     void validate_variable(variable_id variable, variable_causality causality)
     {
         const auto variables = simulators_.at(variable.simulator)->model_description().variables;
-- 
2.43.0


From b5dc8ddd9369181bc1387806a9f105bf4600a1bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:07 +0000
Subject: [PATCH 08/39] fix: validate type and instances of connected variables

---
 src/cosim/execution.cpp | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/cosim/execution.cpp b/src/cosim/execution.cpp
index 73c1936..4482c49 100644
--- a/src/cosim/execution.cpp
+++ b/src/cosim/execution.cpp
@@ -270,6 +270,9 @@ private:
         validate_variable(output, variable_causality::output);
         validate_variable(input, variable_causality::input);
 
+        if (output.type != input.type) {
+            throw std::logic_error("Cannot connect variables of different types");
+        }
         if (is_connected(input)) {
             throw std::logic_error("Input variable already connected");
         }
@@ -314,6 +317,17 @@ private:
         if (io.causality != causality) {
             throw std::logic_error("Error connecting function variable: Wrong causality");
         }
+        const auto type = std::get_if<variable_type>(&io.type);
+        if (type && *type != variable.type) {
+            throw std::logic_error("Error connecting function variable: Wrong type");
+        }
+        const auto groupCount = std::get_if<int>(&group.count);
+        const auto ioCount = std::get_if<int>(&io.count);
+        if (variable.reference.group_instance < 0 || variable.reference.io_instance < 0 ||
+            (groupCount && variable.reference.group_instance >= *groupCount) ||
+            (ioCount && variable.reference.io_instance >= *ioCount)) {
+            throw std::out_of_range("Error connecting function variable: No such variable instance");
+        }
     }
 
     bool run_until(std::optional<time_point> endTime)
-- 
2.43.0


From a30be36b41726b793d380d5043240ecba065ff3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:07 +0000
Subject: [PATCH 09/39] fix: disconnect input variables that are connected to
 functions

---
 src/cosim/algorithm/fixed_step_algorithm.cpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/cosim/algorithm/fixed_step_algorithm.cpp b/src/cosim/algorithm/fixed_step_algorithm.cpp
index 95ce195..7518c41 100644
--- a/src/cosim/algorithm/fixed_step_algorithm.cpp
+++ b/src/cosim/algorithm/fixed_step_algorithm.cpp
@@ -124,6 +124,18 @@ public:
                 return;
             }
         }
+        for (auto& f : functions_) {
+            auto& conns = f.second.outgoingSimConnections;
+            const auto it = std::find_if(
+                conns.begin(),
+                conns.end(),
+                [input](const auto& c) { return c.target == input; });
+            if (it != conns.end()) {
+                conns.erase(it);
+                update_function_decimation_factor(f.second);
+                return;
+            }
+        }
     }
 
     void disconnect_variable(function_io_id input)
-- 
2.43.0


From 7a150997be504884c160543f7d554747018ad486 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:07 +0000
Subject: [PATCH 10/39] fix: keep function decimation factors consistent with
 their targets

---
 src/cosim/algorithm/fixed_step_algorithm.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/cosim/algorithm/fixed_step_algorithm.cpp b/src/cosim/algorithm/fixed_step_algorithm.cpp
index 7518c41..0f5b0f2 100644
--- a/src/cosim/algorithm/fixed_step_algorithm.cpp
+++ b/src/cosim/algorithm/fixed_step_algorithm.cpp
@@ -234,6 +234,9 @@ public:
     {
         COSIM_INPUT_CHECK(factor > 0);
         simulators_.at(i).decimationFactor = factor;
+        for (auto& f : functions_) {
+            update_function_decimation_factor(f.second);
+        }
     }
 
 
@@ -317,6 +320,7 @@ private:
                 connections.end(),
                 [i](const auto& c) { return c.target.simulator == i; });
             connections.erase(newEnd, connections.end());
+            update_function_decimation_factor(f.second);
         }
     }
 
-- 
2.43.0


From dedc4a68928af493de22b2c14026596dcdc9664d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:58 +0000
Subject: [PATCH 11/39] fix: Report use of the wrong kind of entity as
 invalid_system_structure

The class promises this error code for every invalid change, but naming a
function where a simulator is expected (or vice versa) raised
std::logic_error.
---
 src/cosim/system_structure.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/cosim/system_structure.cpp b/src/cosim/system_structure.cpp
index 4e285c6..69615d4 100644
--- a/src/cosim/system_structure.cpp
+++ b/src/cosim/system_structure.cpp
@@ -210,7 +210,9 @@ const variable_description& system_structure::get_variable_description(
     }
     const auto model = entity_type_to<cosim::model>(sit->second.type);
     if (!model) {
-        throw std::logic_error("Not a simulator: " + to_text(v));
+        throw error(
+            make_error_code(errc::invalid_system_structure),
+            "Not a simulator: " + to_text(v));
     }
     const auto& modelInfo = modelCache_.at(model->description()->uuid);
     const auto vit = modelInfo.variables.find(v.variable_name);
@@ -235,7 +237,9 @@ system_structure::get_function_io_description(
     }
     const auto functionType = entity_type_to<function_type>(fit->second.type);
     if (!functionType) {
-        throw std::logic_error("Not a function: " + to_text(v));
+        throw error(
+            make_error_code(errc::invalid_system_structure),
+            "Not a function: " + to_text(v));
     }
     const auto& functionInfo = functionCache_.at(v.entity_name);
     const auto git = functionInfo.ios.find(v.variable_group_name);
-- 
2.43.0


From 736a1c7a986ef60311e7de8e8a5bf8150235c890 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:14 +0000
Subject: [PATCH 12/39] fix: Refuse connections to function variable instances
 that do not exist

system_structure only checked the group and variable names, so a reference
to an instance number beyond what the function has was accepted and only
failed once the simulation was running.
---
 src/cosim/system_structure.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/cosim/system_structure.cpp b/src/cosim/system_structure.cpp
index 69615d4..f9b356e 100644
--- a/src/cosim/system_structure.cpp
+++ b/src/cosim/system_structure.cpp
@@ -254,6 +254,15 @@ system_structure::get_function_io_description(
             make_error_code(errc::invalid_system_structure),
             "No such variable: " + to_text(v));
     }
+    const auto& group = functionInfo.description.io_groups.at(vit->second.group_index);
+    if (v.variable_group_instance < 0 ||
+        v.variable_group_instance >= std::get<int>(group.count) ||
+        v.variable_instance < 0 ||
+        v.variable_instance >= std::get<int>(vit->second.description.count)) {
+        throw error(
+            make_error_code(errc::invalid_system_structure),
+            "No such variable instance: " + to_text(v));
+    }
     return vit->second;
 }
 
-- 
2.43.0


From f80aa08de9ba80d84441e7e30f4facb87b2a6380 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:45 +0000
Subject: [PATCH 13/39] fix: report a metadata file that cannot be opened

The stream that was tested was that of the result file, so a metadata file
that could not be opened was silently skipped.
---
 src/cosim/observer/file_observer.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cosim/observer/file_observer.cpp b/src/cosim/observer/file_observer.cpp
index eacfbcb..ae11e7f 100644
--- a/src/cosim/observer/file_observer.cpp
+++ b/src/cosim/observer/file_observer.cpp
@@ -277,7 +277,7 @@ private:
         const auto filePath = logDir_ / filename;
         metadata_fw.open(filePath, std::ios_base::out | std::ios_base::app);
 
-        if (fsw_.fail()) {
+        if (metadata_fw.fail()) {
             std::stringstream error;
             error << "Failed to open log metadata file stream: " << filePath.c_str();
             throw std::runtime_error(error.str());
-- 
2.43.0


From 1d2e1337ac1faa4fdcdd1f45057c33632edf9c50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:29 +0000
Subject: [PATCH 14/39] fix: refuse a decimation factor of zero for logging

It led to a division by zero when the first step was observed.
---
 include/cosim/observer/file_observer.hpp | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/include/cosim/observer/file_observer.hpp b/include/cosim/observer/file_observer.hpp
index 686cac2..1d308d0 100644
--- a/include/cosim/observer/file_observer.hpp
+++ b/include/cosim/observer/file_observer.hpp
@@ -15,6 +15,7 @@
 
 #include <atomic>
 #include <memory>
+#include <stdexcept>
 #include <unordered_map>
 
 
@@ -57,7 +58,7 @@ public:
         const std::vector<std::string>& variableNames,
         std::optional<size_t> decimationFactor = std::nullopt)
     {
-        variablesToLog_[simulatorName].first = decimationFactor.value_or(defaultDecimationFactor_);
+        variablesToLog_[simulatorName].first = checked(decimationFactor.value_or(defaultDecimationFactor_));
         for (const auto& variableName : variableNames) {
             variablesToLog_[simulatorName].second.emplace_back(variableName);
         }
@@ -76,7 +77,7 @@ public:
         const std::string& simulatorName,
         std::optional<size_t> decimationFactor = std::nullopt)
     {
-        variablesToLog_[simulatorName].first = decimationFactor.value_or(defaultDecimationFactor_);
+        variablesToLog_[simulatorName].first = checked(decimationFactor.value_or(defaultDecimationFactor_));
         variablesToLog_[simulatorName].second = {}; // empty variable means log all
         return *this;
     }
@@ -106,6 +107,14 @@ private:
 
     std::unordered_map<std::string, std::pair<size_t, std::vector<std::string>>> variablesToLog_;
 
+    static size_t checked(size_t decimationFactor)
+    {
+        if (decimationFactor < 1) {
+            throw std::invalid_argument("The decimation factor of a logged simulator must be at least 1");
+        }
+        return decimationFactor;
+    }
+
     [[nodiscard]] bool should_log_simulator(const std::string& name) const
     {
         return variablesToLog_.count(name);
-- 
2.43.0


From 9ee30cddd7499d4a94ebc16af38ac80e07e77ee0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:34 +0000
Subject: [PATCH 15/39] fix: keep a cached directory reserved until its last
 reader lets go

---
 src/cosim/file_cache.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/cosim/file_cache.cpp b/src/cosim/file_cache.cpp
index 36f5247..4746c2e 100644
--- a/src/cosim/file_cache.cpp
+++ b/src/cosim/file_cache.cpp
@@ -101,8 +101,12 @@ public:
         }
         const auto path = root_->path() / percent_encode(key);
 
-        auto ownership = std::make_shared<dummy>();
-        owns.ro = ownership;
+        // Share ownership with other readers, if any.
+        auto ownership = owns.ro.lock();
+        if (!ownership) {
+            ownership = std::make_shared<dummy>();
+            owns.ro = ownership;
+        }
         return std::make_unique<temporary_file_cache_directory>(root_, path, ownership);
     }
 
-- 
2.43.0


From 744d15a6374e61712e2f86a68017ee33c07702fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:41 +0000
Subject: [PATCH 16/39] fix: let a lock file be opened while another one has
 been deleted

---
 src/cosim/utility/concurrency.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/cosim/utility/concurrency.cpp b/src/cosim/utility/concurrency.cpp
index c55d14a..37aba7d 100644
--- a/src/cosim/utility/concurrency.cpp
+++ b/src/cosim/utility/concurrency.cpp
@@ -247,7 +247,10 @@ std::shared_ptr<file_lock::file_mutex> file_lock::get_file_mutex(
     if (cosim::filesystem::exists(path)) {
         for (auto it = fileMutexCache.begin(); it != fileMutexCache.end();) {
             if (auto fm = it->fileMutex.lock()) {
-                if (cosim::filesystem::equivalent(path, it->path)) {
+                // The other file may have been deleted in the meantime, in
+                // which case it is certainly a different one.
+                std::error_code notEquivalent;
+                if (cosim::filesystem::equivalent(path, it->path, notEquivalent)) {
                     assert(!fileMutex);
                     fileMutex = std::move(fm);
                 }
-- 
2.43.0


From 7487b849488aeafe80821db77d579df7d317af5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:18 +0000
Subject: [PATCH 17/39] fix: refuse archive entries that refer to a parent
 directory

---
 src/cosim/utility/zip.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/cosim/utility/zip.cpp b/src/cosim/utility/zip.cpp
index 0e156ee..493814f 100644
--- a/src/cosim/utility/zip.cpp
+++ b/src/cosim/utility/zip.cpp
@@ -256,6 +256,12 @@ void archive::extract_all(
                 throw error(
                     "Archive contains an entry with an absolute path: " + entryName);
             }
+            for (const auto& component : entryPath) {
+                if (component == "..") {
+                    throw error(
+                        "Archive contains an entry which refers to a parent directory: " + entryName);
+                }
+            }
             const auto targetPath = targetDir / entryPath;
             if (entryName.back() == '/') {
                 cosim::filesystem::create_directories(targetPath);
-- 
2.43.0


From dd218a0d86b1332f651b67f2f2e23a653e89a5d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:18 +0000
Subject: [PATCH 18/39] fix: report write errors that occur when an extracted
 file is flushed

---
 src/cosim/utility/zip.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/cosim/utility/zip.cpp b/src/cosim/utility/zip.cpp
index 493814f..335c1ea 100644
--- a/src/cosim/utility/zip.cpp
+++ b/src/cosim/utility/zip.cpp
@@ -226,6 +226,7 @@ void extract_file_as(
             targetPath.string());
     }
     copy_to_stream(srcFile, tgtFile, buffer);
+    tgtFile.close();
     if (tgtFile.fail()) {
         throw std::system_error(
             make_error_code(std::errc::io_error),
-- 
2.43.0


From e3f1ec9ca657db28f1a56c44630ba7f5d3cfaa66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:18 +0000
Subject: [PATCH 19/39] fix: do not read before the name of an archive entry
 with an empty name

---
 src/cosim/utility/zip.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cosim/utility/zip.cpp b/src/cosim/utility/zip.cpp
index 335c1ea..7d82be7 100644
--- a/src/cosim/utility/zip.cpp
+++ b/src/cosim/utility/zip.cpp
@@ -182,7 +182,7 @@ bool archive::is_dir_entry(entry_index index) const
     }
     if ((zs.valid & ZIP_STAT_NAME) && (zs.valid & ZIP_STAT_SIZE) && (zs.valid & ZIP_STAT_CRC)) {
         const auto nameLen = std::strlen(zs.name);
-        return zs.name[nameLen - 1] == '/' && zs.size == 0 && zs.crc == 0;
+        return nameLen > 0 && zs.name[nameLen - 1] == '/' && zs.size == 0 && zs.crc == 0;
     } else {
         throw error("Cannot determine entry type");
     }
-- 
2.43.0


From ae6f025aaec0521fd8444c92463b26ac19c4744b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:59 +0000
Subject: [PATCH 20/39] fix: check the query component of a URI, not its path
 again

---
 src/cosim/uri.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cosim/uri.cpp b/src/cosim/uri.cpp
index a2889d8..1da15dd 100644
--- a/src/cosim/uri.cpp
+++ b/src/cosim/uri.cpp
@@ -186,7 +186,7 @@ uri::uri(
     COSIM_INPUT_CHECK(!authority || all_chars_satisfy(is_authority_char, *authority));
     COSIM_INPUT_CHECK(!authority || path.empty() || path.front() == '/');
     COSIM_INPUT_CHECK(all_chars_satisfy(is_path_char, path));
-    COSIM_INPUT_CHECK(!query || all_chars_satisfy(is_query_char, path));
+    COSIM_INPUT_CHECK(!query || all_chars_satisfy(is_query_char, *query));
     data_.reserve(
         (scheme ? scheme->size() + 1 : 0) +
         (authority ? authority->size() + 2 : 0) +
-- 
2.43.0


From c834165140df037ec591685cb891f77ecf04ef52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:59 +0000
Subject: [PATCH 21/39] fix: refuse URI paths that would be taken for an
 authority or a scheme

---
 src/cosim/uri.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/cosim/uri.cpp b/src/cosim/uri.cpp
index 1da15dd..32c4977 100644
--- a/src/cosim/uri.cpp
+++ b/src/cosim/uri.cpp
@@ -185,6 +185,9 @@ uri::uri(
         (!scheme->empty() && all_chars_satisfy(is_scheme_char, *scheme)));
     COSIM_INPUT_CHECK(!authority || all_chars_satisfy(is_authority_char, *authority));
     COSIM_INPUT_CHECK(!authority || path.empty() || path.front() == '/');
+    COSIM_INPUT_CHECK(authority || path.substr(0, 2) != "//");
+    COSIM_INPUT_CHECK(scheme || authority ||
+        path.substr(0, path.find('/')).find(':') == std::string_view::npos);
     COSIM_INPUT_CHECK(all_chars_satisfy(is_path_char, path));
     COSIM_INPUT_CHECK(!query || all_chars_satisfy(is_query_char, *query));
     data_.reserve(
-- 
2.43.0


From 1448f98e7028c75222ce2fd4614b56706e21b06e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:59 +0000
Subject: [PATCH 22/39] fix: remove one segment, not two, when the last segment
 of a URI path is empty

---
 src/cosim/uri.cpp | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/cosim/uri.cpp b/src/cosim/uri.cpp
index 32c4977..f6bed74 100644
--- a/src/cosim/uri.cpp
+++ b/src/cosim/uri.cpp
@@ -312,10 +312,8 @@ std::string_view remove_dot_segments(
     outputBuffer.clear();
 
     const auto removeLastOutputSegment = [&] {
-        if (outputBuffer.empty()) return;
-        outputBuffer.pop_back();
-        while (!outputBuffer.empty() && outputBuffer.back() != '/') outputBuffer.pop_back();
-        if (!outputBuffer.empty()) outputBuffer.pop_back();
+        const auto lastSlash = outputBuffer.find_last_of('/');
+        outputBuffer.erase(lastSlash == std::string::npos ? 0 : lastSlash);
     };
 
     while (!inputBuffer.empty()) {
-- 
2.43.0


From 1da8759acb4327de77e7916876ffe96675597157 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:59 +0000
Subject: [PATCH 23/39] fix: reject truncated percent-encodings instead of
 reading past the end

---
 src/cosim/uri.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/cosim/uri.cpp b/src/cosim/uri.cpp
index f6bed74..0b3ea1b 100644
--- a/src/cosim/uri.cpp
+++ b/src/cosim/uri.cpp
@@ -460,9 +460,11 @@ std::string percent_decode(std::string_view encoded)
     std::string decoded;
     while (!encoded.empty()) {
         const auto i = encoded.find('%');
-        if (i > encoded.size() - 3) {
+        if (i == std::string_view::npos) {
             decoded += encoded;
             encoded.remove_prefix(encoded.size());
+        } else if (encoded.size() - i < 3) {
+            throw std::domain_error("Incomplete percent-encoding");
         } else {
             decoded += encoded.substr(0, i);
             decoded += static_cast<char>(
-- 
2.43.0


From fad01bfe895d13783d425645bba732b3940d2ee7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:37 +0000
Subject: [PATCH 24/39] fix: refuse URI schemes that do not start with a letter

---
 src/cosim/uri.cpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/cosim/uri.cpp b/src/cosim/uri.cpp
index 0b3ea1b..01e51a1 100644
--- a/src/cosim/uri.cpp
+++ b/src/cosim/uri.cpp
@@ -30,6 +30,11 @@ namespace cosim
 namespace
 {
 
+bool is_scheme_start_char(char c) noexcept
+{
+    return std::isalpha(static_cast<unsigned char>(c));
+}
+
 bool is_scheme_char(char c) noexcept
 {
     return std::isalnum(static_cast<unsigned char>(c)) ||
@@ -44,6 +49,8 @@ std::optional<std::string_view> consume_scheme(std::string_view& input)
         return std::nullopt;
     } else if (pos == 0) {
         throw std::invalid_argument("URI scheme is empty");
+    } else if (!is_scheme_start_char(input[0])) {
+        throw std::invalid_argument("URI scheme does not start with a letter");
     } else {
         auto ret = input.substr(0, pos);
         input.remove_prefix(pos + 1);
@@ -182,7 +189,8 @@ uri::uri(
     std::optional<std::string_view> fragment)
 {
     COSIM_INPUT_CHECK(!scheme ||
-        (!scheme->empty() && all_chars_satisfy(is_scheme_char, *scheme)));
+        (!scheme->empty() && is_scheme_start_char(scheme->front()) &&
+            all_chars_satisfy(is_scheme_char, *scheme)));
     COSIM_INPUT_CHECK(!authority || all_chars_satisfy(is_authority_char, *authority));
     COSIM_INPUT_CHECK(!authority || path.empty() || path.front() == '/');
     COSIM_INPUT_CHECK(authority || path.substr(0, 2) != "//");
-- 
2.43.0


From 53ba501396033fdd8f25a50a8dc5483d6032926d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:14:07 +0000
Subject: [PATCH 25/39] fix: report unknown variables in scenario files instead
 of dereferencing an empty optional

---
 src/cosim/scenario_parser.cpp | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/cosim/scenario_parser.cpp b/src/cosim/scenario_parser.cpp
index 6306429..3b393af 100644
--- a/src/cosim/scenario_parser.cpp
+++ b/src/cosim/scenario_parser.cpp
@@ -216,11 +216,17 @@ scenario::scenario parse_scenario(
         auto varName =
             specified_or_default(event, "variable", defaultOpts.variable);
         const auto var =
-            *find_variable(simulator->model_description(), varName);
+            find_variable(simulator->model_description(), varName);
+        if (!var) {
+            std::ostringstream oss;
+            oss << "Can't find variable with name: " << varName
+                << " in model with name: " << simulator->name();
+            throw std::invalid_argument(oss.str());
+        }
 
         auto mode = specified_or_default(event, "action", defaultOpts.action);
-        bool isInput = is_input(var.causality);
-        scenario::variable_action a = generate_action(event, mode, index, var.type, isInput, var.reference);
+        bool isInput = is_input(var->causality);
+        scenario::variable_action a = generate_action(event, mode, index, var->type, isInput, var->reference);
         events.emplace_back(scenario::event{time, a});
     }
 
-- 
2.43.0


From 7f8e3cee3024320726b9757950482eb075acf44e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:14:53 +0000
Subject: [PATCH 26/39] fix: find system structure elements regardless of their
 namespace prefix, and report missing ones

---
 src/cosim/osp_config_parser.cpp | 71 +++++++++++++++++++++++----------
 1 file changed, 49 insertions(+), 22 deletions(-)

diff --git a/src/cosim/osp_config_parser.cpp b/src/cosim/osp_config_parser.cpp
index b909f96..8a98ff7 100644
--- a/src/cosim/osp_config_parser.cpp
+++ b/src/cosim/osp_config_parser.cpp
@@ -255,6 +255,33 @@ T attribute_or(xercesc::DOMElement* el, const char* attributeName, T defaultValu
     }
 }
 
+// Returns all descendants of `parent` which have the given name, regardless of
+// which namespace prefix the document uses for them.
+xercesc::DOMNodeList* elements_by_name(const xercesc::DOMElement* parent, const char* name)
+{
+    return parent->getElementsByTagNameNS(tc("*").get(), tc(name).get());
+}
+
+// Returns the descendant of `parent` which has the given name and index, or
+// null if there is none.
+xercesc::DOMElement* find_element(const xercesc::DOMElement* parent, const char* name, XMLSize_t index = 0)
+{
+    return static_cast<xercesc::DOMElement*>(elements_by_name(parent, name)->item(index));
+}
+
+// Returns the descendant of `parent` which has the given name and index, and
+// throws if there is none.
+xercesc::DOMElement* get_element(const xercesc::DOMElement* parent, const char* name, XMLSize_t index = 0)
+{
+    const auto element = find_element(parent, name, index);
+    if (element == nullptr) {
+        std::ostringstream oss;
+        oss << "Missing element: " << name;
+        throw std::runtime_error(oss.str());
+    }
+    return element;
+}
+
 } // namespace
 
 osp_config_parser::osp_config_parser(
@@ -306,7 +333,7 @@ osp_config_parser::osp_config_parser(
 
     const auto rootElement = doc->getDocumentElement();
 
-    const auto simulators = static_cast<xercesc::DOMElement*>(rootElement->getElementsByTagName(tc("Simulators").get())->item(0));
+    const auto simulators = get_element(rootElement, "Simulators");
     for (auto element = simulators->getFirstElementChild(); element != nullptr; element = element->getNextElementSibling()) {
         std::string name = tc(element->getAttribute(tc("name").get())).get();
         std::string source = tc(element->getAttribute(tc("source").get())).get();
@@ -318,11 +345,11 @@ osp_config_parser::osp_config_parser(
         }
 
         std::vector<InitialValue> initialValues;
-        const auto initValsElement = static_cast<xercesc::DOMElement*>(element->getElementsByTagName(tc("InitialValues").get())->item(0));
+        const auto initValsElement = find_element(element, "InitialValues");
         if (initValsElement) {
             for (auto initValElement = initValsElement->getFirstElementChild(); initValElement != nullptr; initValElement = initValElement->getNextElementSibling()) {
                 std::string varName = tc(initValElement->getAttribute(tc("variable").get())).get();
-                variable_type varType = parse_variable_type(std::string(tc(initValElement->getFirstElementChild()->getNodeName()).get()));
+                variable_type varType = parse_variable_type(std::string(tc(initValElement->getFirstElementChild()->getLocalName()).get()));
                 std::string varValue = tc(initValElement->getFirstElementChild()->getAttribute(tc("value").get())).get();
                 switch (varType) {
                     case variable_type::real:
@@ -346,12 +373,12 @@ osp_config_parser::osp_config_parser(
         simulators_.push_back({name, source, stepSize, initialValues});
     }
 
-    const auto functionsElement = static_cast<xercesc::DOMElement*>(rootElement->getElementsByTagName(tc("Functions").get())->item(0));
+    const auto functionsElement = find_element(rootElement, "Functions");
     if (functionsElement != nullptr) {
         for (auto functionElement = functionsElement->getFirstElementChild(); functionElement != nullptr; functionElement = functionElement->getNextElementSibling()) {
 
 
-            const auto functionNodeName = std::string(tc(functionElement->getNodeName()).get());
+            const auto functionNodeName = std::string(tc(functionElement->getLocalName()).get());
             const auto functionName = std::string(tc(functionElement->getAttribute(tc("name").get())).get());
             if ("LinearTransformation" == functionNodeName) {
                 LinearTransformationFunction function;
@@ -419,33 +446,33 @@ osp_config_parser::osp_config_parser(
         }
     }
 
-    auto descNodes = rootElement->getElementsByTagName(tc("Description").get());
+    auto descNodes = elements_by_name(rootElement, "Description");
     if (descNodes->getLength() > 0) {
         simulationInformation_.description = tc(descNodes->item(0)->getTextContent()).get();
     }
 
-    auto ssNodes = rootElement->getElementsByTagName(tc("BaseStepSize").get());
+    auto ssNodes = elements_by_name(rootElement, "BaseStepSize");
     if (ssNodes->getLength() > 0) {
         simulationInformation_.stepSize = boost::lexical_cast<double>(tc(ssNodes->item(0)->getTextContent()));
     }
 
-    auto stNodes = rootElement->getElementsByTagName(tc("StartTime").get());
+    auto stNodes = elements_by_name(rootElement, "StartTime");
     if (stNodes->getLength() > 0) {
         simulationInformation_.startTime = boost::lexical_cast<double>(tc(stNodes->item(0)->getTextContent()).get());
     }
 
-    auto etNodes = rootElement->getElementsByTagName(tc("EndTime").get());
+    auto etNodes = elements_by_name(rootElement, "EndTime");
     if (etNodes->getLength() > 0) {
         simulationInformation_.endTime = boost::lexical_cast<double>(tc(etNodes->item(0)->getTextContent()).get());
     }
 
-    auto connectionsElement = static_cast<xercesc::DOMElement*>(rootElement->getElementsByTagName(tc("Connections").get())->item(0));
+    auto connectionsElement = find_element(rootElement, "Connections");
     if (connectionsElement) {
-        auto variableConnectionsElement = connectionsElement->getElementsByTagName(tc("VariableConnection").get());
+        auto variableConnectionsElement = elements_by_name(connectionsElement, "VariableConnection");
         for (size_t i = 0; i < variableConnectionsElement->getLength(); i++) {
             auto connectionElement = static_cast<xercesc::DOMElement*>(variableConnectionsElement->item(i));
-            auto a = static_cast<xercesc::DOMElement*>(connectionElement->getElementsByTagName(tc("Variable").get())->item(0));
-            auto b = static_cast<xercesc::DOMElement*>(connectionElement->getElementsByTagName(tc("Variable").get())->item(1));
+            auto a = get_element(connectionElement, "Variable");
+            auto b = get_element(connectionElement, "Variable", 1);
 
             std::string simulatorA = tc(a->getAttribute(tc("simulator").get())).get();
             std::string nameA = tc(a->getAttribute(tc("name").get())).get();
@@ -458,11 +485,11 @@ osp_config_parser::osp_config_parser(
             variableConnections_.push_back({veA, veB});
         }
 
-        auto signalConnectionsElement = connectionsElement->getElementsByTagName(tc("SignalConnection").get());
+        auto signalConnectionsElement = elements_by_name(connectionsElement, "SignalConnection");
         for (size_t i = 0; i < signalConnectionsElement->getLength(); i++) {
             auto connectionElement = static_cast<xercesc::DOMElement*>(signalConnectionsElement->item(i));
-            auto signalElement = static_cast<xercesc::DOMElement*>(connectionElement->getElementsByTagName(tc("Signal").get())->item(0));
-            auto variableElement = static_cast<xercesc::DOMElement*>(connectionElement->getElementsByTagName(tc("Variable").get())->item(0));
+            auto signalElement = get_element(connectionElement, "Signal");
+            auto variableElement = get_element(connectionElement, "Variable");
 
             std::string function = tc(signalElement->getAttribute(tc("function").get())).get();
             std::string sigName = tc(signalElement->getAttribute(tc("name").get())).get();
@@ -475,11 +502,11 @@ osp_config_parser::osp_config_parser(
             signalConnections_.push_back({signal, variable});
         }
 
-        auto variableGroupConnectionsElement = connectionsElement->getElementsByTagName(tc("VariableGroupConnection").get());
+        auto variableGroupConnectionsElement = elements_by_name(connectionsElement, "VariableGroupConnection");
         for (size_t i = 0; i < variableGroupConnectionsElement->getLength(); i++) {
             auto connectionElement = static_cast<xercesc::DOMElement*>(variableGroupConnectionsElement->item(i));
-            auto a = static_cast<xercesc::DOMElement*>(connectionElement->getElementsByTagName(tc("VariableGroup").get())->item(0));
-            auto b = static_cast<xercesc::DOMElement*>(connectionElement->getElementsByTagName(tc("VariableGroup").get())->item(1));
+            auto a = get_element(connectionElement, "VariableGroup");
+            auto b = get_element(connectionElement, "VariableGroup", 1);
 
             std::string simulatorA = tc(a->getAttribute(tc("simulator").get())).get();
             std::string nameA = tc(a->getAttribute(tc("name").get())).get();
@@ -492,11 +519,11 @@ osp_config_parser::osp_config_parser(
             variableGroupConnections_.push_back({veA, veB});
         }
 
-        auto signalGroupConnectionsElement = connectionsElement->getElementsByTagName(tc("SignalGroupConnection").get());
+        auto signalGroupConnectionsElement = elements_by_name(connectionsElement, "SignalGroupConnection");
         for (size_t i = 0; i < signalGroupConnectionsElement->getLength(); i++) {
             auto connectionElement = static_cast<xercesc::DOMElement*>(signalGroupConnectionsElement->item(i));
-            auto signalElement = static_cast<xercesc::DOMElement*>(connectionElement->getElementsByTagName(tc("SignalGroup").get())->item(0));
-            auto variableElement = static_cast<xercesc::DOMElement*>(connectionElement->getElementsByTagName(tc("VariableGroup").get())->item(0));
+            auto signalElement = get_element(connectionElement, "SignalGroup");
+            auto variableElement = get_element(connectionElement, "VariableGroup");
 
             std::string function = tc(signalElement->getAttribute(tc("function").get())).get();
             std::string sigName = tc(signalElement->getAttribute(tc("name").get())).get();
-- 
2.43.0


From e4b561ac9dfe0775b559ee1cd4215061e2cfedce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:15:38 +0000
Subject: [PATCH 27/39] fix: report malformed OSP model descriptions, and
 accept ones without variable groups

---
 src/cosim/osp_config_parser.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/cosim/osp_config_parser.cpp b/src/cosim/osp_config_parser.cpp
index 8a98ff7..3f5ed97 100644
--- a/src/cosim/osp_config_parser.cpp
+++ b/src/cosim/osp_config_parser.cpp
@@ -645,9 +645,12 @@ struct extended_model_description
         const auto domImpl = xercesc::DOMImplementationRegistry::getDOMImplementation(tc("LS").get());
         const auto parser = static_cast<xercesc::DOMImplementationLS*>(domImpl)->createLSParser(xercesc::DOMImplementationLS::MODE_SYNCHRONOUS, tc("http://www.w3.org/2001/XMLSchema").get());
 
+        error_handler errorHandler;
+        parser->getDomConfig()->setParameter(xercesc::XMLUni::fgDOMErrorHandler, &errorHandler);
+
         const auto doc = parser->parseURI(ospModelDescription.string().c_str());
 
-        if (doc == nullptr) {
+        if (doc == nullptr || errorHandler.failed()) {
             std::ostringstream oss;
             oss << "Validation of " << ospModelDescription.string() << " failed.";
             BOOST_LOG_SEV(log::logger(), log::error) << oss.str();
@@ -655,8 +658,12 @@ struct extended_model_description
         }
 
         const auto rootElement = doc->getDocumentElement();
+        if (rootElement == nullptr) {
+            throw std::runtime_error(ospModelDescription.string() + " has no root element.");
+        }
 
         const auto variableGroupsElement = static_cast<xercesc::DOMElement*>(rootElement->getElementsByTagName(tc("VariableGroups").get())->item(0));
+        if (variableGroupsElement == nullptr) return; // The model has no variable groups.
 
         for (auto variableGroupElement = variableGroupsElement->getFirstElementChild(); variableGroupElement != nullptr; variableGroupElement = variableGroupElement->getNextElementSibling()) {
             variable_group_description vgd = create_variable_group_description(variableGroupElement);
-- 
2.43.0


From fbec83ba56af1461198fbefe4d76cde80b4a3cd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:16:55 +0000
Subject: [PATCH 28/39] fix: report unknown variable groups instead of silently
 dropping the connection, and connect nested groups by description

---
 src/cosim/osp_config_parser.cpp | 157 +++++++++++++++++---------------
 1 file changed, 84 insertions(+), 73 deletions(-)

diff --git a/src/cosim/osp_config_parser.cpp b/src/cosim/osp_config_parser.cpp
index 3f5ed97..99cbd79 100644
--- a/src/cosim/osp_config_parser.cpp
+++ b/src/cosim/osp_config_parser.cpp
@@ -752,98 +752,109 @@ extended_model_description get_emd(
     return emdIt->second;
 }
 
-std::vector<std::string> get_variable_group_variables(
-    const std::unordered_map<std::string, variable_group_description>& descriptions,
-    const osp_config_parser::VariableEndpoint& endpoint)
+// Looks for a variable group with the given name, first in `groups` itself and
+// then among the nested groups.  Returns null if there is none.
+const variable_group_description* find_variable_group(
+    const std::vector<const variable_group_description*>& groups,
+    const std::string& name)
 {
-    std::vector<std::string> groupVariables;
-    auto groupIt = descriptions.find(endpoint.name);
-    if (groupIt == descriptions.end()) {
-        for (const auto& description : descriptions) {
-            if (description.second.variable_group_descriptions.size() != 0) {
-                std::unordered_map<std::string, variable_group_description> nestedDescriptions;
-                for (const auto& variableGroupDescr : description.second.variable_group_descriptions) {
-                    nestedDescriptions.insert({variableGroupDescr.name, variableGroupDescr});
-                }
-                groupVariables = get_variable_group_variables(nestedDescriptions, endpoint);
-                if (groupVariables.size() > 0) {
-                    break;
-                }
-            }
+    for (const auto group : groups) {
+        if (group->name == name) return group;
+    }
+    for (const auto group : groups) {
+        std::vector<const variable_group_description*> nestedGroups;
+        for (const auto& nestedGroup : group->variable_group_descriptions) {
+            nestedGroups.push_back(&nestedGroup);
         }
-    } else {
-        groupVariables = groupIt->second.variables;
+        if (const auto found = find_variable_group(nestedGroups, name)) return found;
     }
-    return groupVariables;
+    return nullptr;
 }
 
-std::vector<cosim::variable_group_description> get_variable_groups(
+const variable_group_description& get_variable_group(
     const std::unordered_map<std::string, variable_group_description>& descriptions,
-    const std::string& connector)
+    const osp_config_parser::VariableEndpoint& endpoint)
 {
-    auto groupIt = descriptions.find(connector);
-    if (groupIt == descriptions.end()) {
-        return {};
+    std::vector<const variable_group_description*> groups;
+    for (const auto& description : descriptions) {
+        groups.push_back(&description.second);
+    }
+    const auto group = find_variable_group(groups, endpoint.name);
+    if (group == nullptr) {
+        std::ostringstream oss;
+        oss << "Cannot find variable group " << endpoint.simulator << ":" << endpoint.name;
+        throw std::out_of_range(oss.str());
     }
-    return groupIt->second.variable_group_descriptions;
+    return *group;
 }
 
 
-void connect_variable_groups(
-    const std::vector<osp_config_parser::VariableConnection>& variableGroupConnections,
-    system_structure& systemStructure,
-    const std::unordered_map<std::string, extended_model_description>& emds)
+void connect_variable_group(
+    const std::string& simulatorA,
+    const variable_group_description& groupA,
+    const std::string& simulatorB,
+    const variable_group_description& groupB,
+    system_structure& systemStructure)
 {
+    const auto& variablesA = groupA.variables;
+    const auto& variablesB = groupB.variables;
+    const auto& variableGroupsA = groupA.variable_group_descriptions;
+    const auto& variableGroupsB = groupB.variable_group_descriptions;
 
-    for (const auto& connection : variableGroupConnections) {
-        const auto& emdA = get_emd(emds, connection.variableA.simulator);
-        const auto& emdB = get_emd(emds, connection.variableB.simulator);
-        const auto& variablesA = get_variable_group_variables(emdA.variableGroups, connection.variableA);
-        const auto& variablesB = get_variable_group_variables(emdB.variableGroups, connection.variableB);
-        const auto& variableGroupsA = get_variable_groups(emdA.variableGroups, connection.variableA.name);
-        const auto& variableGroupsB = get_variable_groups(emdB.variableGroups, connection.variableB.name);
+    if (variableGroupsA.size() != variableGroupsB.size()) {
+        std::ostringstream oss;
+        oss << "Cannot create connection between variable groups. Variable group "
+            << simulatorA << ":" << groupA.name
+            << " has different size [" << variableGroupsA.size() << "] than variable group "
+            << simulatorB << ":" << groupB.name
+            << " size [" << variableGroupsB.size() << "]";
+        throw std::runtime_error(oss.str());
+    }
 
-        if (variableGroupsA.size() != variableGroupsB.size()) {
-            std::ostringstream oss;
-            oss << "Cannot create connection between variable groups. Variable group "
-                << connection.variableA.simulator << ":" << connection.variableA.name
-                << " has different size [" << variableGroupsA.size() << "] than variable group "
-                << connection.variableB.simulator << ":" << connection.variableB.name
-                << " size [" << variableGroupsB.size() << "]";
-            throw std::runtime_error(oss.str());
-        }
+    for (std::size_t i = 0; i < variableGroupsA.size(); ++i) {
+        connect_variable_group(
+            simulatorA, variableGroupsA.at(i),
+            simulatorB, variableGroupsB.at(i),
+            systemStructure);
+    }
 
-        std::vector<osp_config_parser::VariableConnection> nestedVariableGroupConnections;
-        // clang-format off
-        for (std::size_t i = 0; i < variableGroupsA.size(); ++i) {
-            nestedVariableGroupConnections.push_back({
-                {connection.variableA.simulator, variableGroupsA.at(i).name},
-                {connection.variableB.simulator, variableGroupsB.at(i).name}});
-        }
-        // clang-format on
-        connect_variable_groups(nestedVariableGroupConnections, systemStructure, emds);
+    if (variablesA.size() != variablesB.size()) {
+        std::ostringstream oss;
+        oss << "Cannot create connection between variable groups. Variable group "
+            << simulatorA << ":" << groupA.name
+            << " has different size [" << variablesA.size() << "] than variable group "
+            << simulatorB << ":" << groupB.name
+            << " size [" << variablesB.size() << "]";
+        throw std::runtime_error(oss.str());
+    }
 
-        if (variablesA.size() != variablesB.size()) {
-            std::ostringstream oss;
-            oss << "Cannot create connection between variable groups. Variable group "
-                << connection.variableA.simulator << ":" << connection.variableA.name
-                << " has different size [" << variablesA.size() << "] than variable group "
-                << connection.variableB.simulator << ":" << connection.variableB.name
-                << " size [" << variablesB.size() << "]";
-            throw std::runtime_error(oss.str());
-        }
+    std::vector<osp_config_parser::VariableConnection> variableConnections;
 
-        std::vector<osp_config_parser::VariableConnection> variableConnections;
+    // clang-format off
+    for (std::size_t i = 0; i < variablesA.size(); ++i) {
+        variableConnections.push_back({
+            {simulatorA, variablesA.at(i)},
+            {simulatorB, variablesB.at(i)}});
+    }
+    // clang-format on
 
-        // clang-format off
-        for (std::size_t i = 0; i < variablesA.size(); ++i) {
-            variableConnections.push_back({
-                {connection.variableA.simulator, variablesA.at(i)},
-                {connection.variableB.simulator, variablesB.at(i)}});
-        }
-        // clang-format on
+    connect_variables(variableConnections, systemStructure);
+}
 
-        connect_variables(variableConnections, systemStructure);
+void connect_variable_groups(
+    const std::vector<osp_config_parser::VariableConnection>& variableGroupConnections,
+    system_structure& systemStructure,
+    const std::unordered_map<std::string, extended_model_description>& emds)
+{
+    for (const auto& connection : variableGroupConnections) {
+        const auto& emdA = get_emd(emds, connection.variableA.simulator);
+        const auto& emdB = get_emd(emds, connection.variableB.simulator);
+        connect_variable_group(
+            connection.variableA.simulator,
+            get_variable_group(emdA.variableGroups, connection.variableA),
+            connection.variableB.simulator,
+            get_variable_group(emdB.variableGroups, connection.variableB),
+            systemStructure);
     }
 }
 
-- 
2.43.0


From 12870a9a4f8b6e0fd901436b38e2f123ed1038d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:17:59 +0000
Subject: [PATCH 29/39] fix: report unsupported types in SSP files with an
 exception rather than terminating the program

---
 src/cosim/ssp/ssp_parser.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/cosim/ssp/ssp_parser.cpp b/src/cosim/ssp/ssp_parser.cpp
index 9ddb60a..48692dd 100644
--- a/src/cosim/ssp/ssp_parser.cpp
+++ b/src/cosim/ssp/ssp_parser.cpp
@@ -39,9 +39,9 @@ variable_type parse_connector_type(const boost::property_tree::ptree& tree)
     } else if (tree.get_child_optional("ssc:String")) {
         return variable_type::string;
     } else if (tree.get_child_optional("ssc:Enumeration")) {
-        COSIM_PANIC_M("Don't know how to handle Enumeration type!");
+        throw std::runtime_error("Don't know how to handle Enumeration type!");
     } else if (tree.get_child_optional("ssc:Binary")) {
-        COSIM_PANIC_M("Don't know how to handle Binary type!");
+        throw std::runtime_error("Don't know how to handle Binary type!");
     } else {
         throw std::invalid_argument("A valid connector type was not found!");
     }
@@ -66,7 +66,9 @@ ssp_parser::ParameterSet parse_parameter_set(const boost::property_tree::ptree&
             const auto value = get_attribute<std::string>(*stringParameter, "value");
             parameterSet.parameters.push_back({name, variable_type::string, value});
         } else {
-            COSIM_PANIC();
+            std::ostringstream oss;
+            oss << "Unsupported type for parameter '" << name << "'";
+            throw std::runtime_error(oss.str());
         }
     }
     return parameterSet;
-- 
2.43.0


From bccdafd591159340a0d2a8cd3f8b5eaa8f5d511a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:07:58 +0000
Subject: [PATCH 30/39] fix: undo a running scenario before another one is
 loaded

---
 src/cosim/manipulator/scenario_manager.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/cosim/manipulator/scenario_manager.cpp b/src/cosim/manipulator/scenario_manager.cpp
index 467dbb1..d68203b 100644
--- a/src/cosim/manipulator/scenario_manager.cpp
+++ b/src/cosim/manipulator/scenario_manager.cpp
@@ -30,6 +30,9 @@ public:
 
     void load_scenario(const scenario::scenario& s, time_point currentTime)
     {
+        if (state.running) {
+            abort_scenario();
+        }
         state = scenario_state{};
         state.startTime = currentTime;
         state.endTime = s.end;
-- 
2.43.0


From 5bf89d8ce12b344a4f84f295ddd19214ac8e8582 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:07:58 +0000
Subject: [PATCH 31/39] fix: do not undo a finished scenario's events again
 when it is aborted

---
 src/cosim/manipulator/scenario_manager.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/cosim/manipulator/scenario_manager.cpp b/src/cosim/manipulator/scenario_manager.cpp
index d68203b..afdd8e8 100644
--- a/src/cosim/manipulator/scenario_manager.cpp
+++ b/src/cosim/manipulator/scenario_manager.cpp
@@ -70,6 +70,7 @@ public:
                 << ", performing cleanup";
             state.running = false;
             cleanup(state.executedEvents);
+            state.executedEvents.clear();
             return;
         }
 
-- 
2.43.0


From 4ebff3c3a533c004561cb72f4b7b6366e5b79899 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:07:58 +0000
Subject: [PATCH 32/39] fix: scenario events for unknown or removed simulators
 dereference a null pointer

---
 src/cosim/manipulator/scenario_manager.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/cosim/manipulator/scenario_manager.cpp b/src/cosim/manipulator/scenario_manager.cpp
index afdd8e8..7665acb 100644
--- a/src/cosim/manipulator/scenario_manager.cpp
+++ b/src/cosim/manipulator/scenario_manager.cpp
@@ -171,7 +171,7 @@ private:
                 << "Executing action for simulator " << e.action.simulator
                 << ", variable " << e.action.variable
                 << ", at relative time " << to_double_time_point(relativeTime);
-            execute_action(simulators_[e.action.simulator], e.action);
+            execute_action(simulators_.at(e.action.simulator), e.action);
             return true;
         }
         return false;
@@ -219,7 +219,10 @@ private:
     {
         for (const auto& entry : executedEvents) {
             auto e = entry.second;
-            cleanup_action(simulators_[e.action.simulator], e.action);
+            const auto sim = simulators_.find(e.action.simulator);
+            if (sim != simulators_.end()) {
+                cleanup_action(sim->second, e.action);
+            }
         }
     }
 
-- 
2.43.0


From 6fe4bfa3ae62591553a4e0bd1987846a7facc67a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:48:24 +0000
Subject: [PATCH 33/39] fix: use the same settings that were checked for
 changes when pacing

---
 src/cosim/timer.cpp | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/cosim/timer.cpp b/src/cosim/timer.cpp
index 1a191ba..f02c61c 100644
--- a/src/cosim/timer.cpp
+++ b/src/cosim/timer.cpp
@@ -33,10 +33,18 @@ public:
 
     void sleep(time_point currentTime)
     {
-        const auto newHash = std::hash<real_time_config>()(*config_);
+        // Other threads may change the settings at any time, so we take a copy
+        // to ensure that those we use are the ones we have checked for changes.
+        real_time_config config;
+        config.real_time_simulation = config_->real_time_simulation.load();
+        config.real_time_factor_target = config_->real_time_factor_target.load();
+        config.steps_to_monitor = config_->steps_to_monitor.load();
+        config.sampling_period_to_monitor = config_->sampling_period_to_monitor.load();
+
+        const auto newHash = std::hash<real_time_config>()(config);
         if (newHash != configHashValue_) {
             start(currentTime);
-            const auto sampling_period = config_->sampling_period_to_monitor.load();
+            const auto sampling_period = config.sampling_period_to_monitor.load();
             if (sampling_period.count() > 0) {
                 sampling_period_to_monitor_ = sampling_period;
             } else {
@@ -44,8 +52,8 @@ public:
             }
             configHashValue_ = newHash;
         }
-        double rtfTarget = config_->real_time_factor_target.load();
-        if (config_->real_time_simulation && rtfTarget > 0.0) {
+        double rtfTarget = config.real_time_factor_target.load();
+        if (config.real_time_simulation && rtfTarget > 0.0) {
             const auto elapsed = Time::now() - startTime_;
             const auto expectedSimulationTime = (currentTime - simulationStartTime_) / rtfTarget;
             const auto simulationSleepTime = expectedSimulationTime - elapsed;
-- 
2.43.0


From 926ae69d5836062b8fd0385ca15a41d71cc057e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:39:40 +0000
Subject: [PATCH 34/39] fix: connect every signal connection of an OSP
 function, not just the first one per signal

---
 src/cosim/osp_config_parser.cpp | 84 +++++++++++++++++++--------------
 1 file changed, 48 insertions(+), 36 deletions(-)

diff --git a/src/cosim/osp_config_parser.cpp b/src/cosim/osp_config_parser.cpp
index 99cbd79..309f4f9 100644
--- a/src/cosim/osp_config_parser.cpp
+++ b/src/cosim/osp_config_parser.cpp
@@ -19,7 +19,9 @@
 #include <xercesc/util/PlatformUtils.hpp>
 #include <xercesc/util/XMLString.hpp>
 
+#include <algorithm>
 #include <ios>
+#include <iterator>
 #include <memory>
 #include <sstream>
 #include <stdexcept>
@@ -697,21 +699,23 @@ struct extended_model_description
 namespace
 {
 
-osp_config_parser::SignalConnection find_signal_connection(
+std::vector<osp_config_parser::SignalConnection> find_signal_connections(
     const std::vector<osp_config_parser::SignalConnection>& signalConnections,
     const std::string& functionName,
     const std::string& signalName)
 {
-    auto it = std::find_if(
+    std::vector<osp_config_parser::SignalConnection> connections;
+    std::copy_if(
         signalConnections.begin(),
         signalConnections.end(),
+        std::back_inserter(connections),
         [&](const auto& conn) { return functionName == conn.signal.function && signalName == conn.signal.name; });
-    if (it == signalConnections.end()) {
+    if (connections.empty()) {
         std::ostringstream oss;
         oss << "Missing expected connection to " << functionName << ":" << signalName;
         throw std::out_of_range(oss.str());
     }
-    return *it;
+    return connections;
 }
 
 } // namespace
@@ -872,14 +876,16 @@ void connect_linear_transformation_functions(
             std::make_shared<linear_transformation_function_type>(),
             functionParams);
 
-        const auto inConn = find_signal_connection(signalConnections, functionName, function.in.name);
-        const auto outConn = find_signal_connection(signalConnections, functionName, function.out.name);
-        systemStructure.connect_variables(
-            full_variable_name(inConn.variable.simulator, inConn.variable.name),
-            full_variable_name(functionName, "in", ""));
-        systemStructure.connect_variables(
-            full_variable_name(functionName, "out", ""),
-            full_variable_name(outConn.variable.simulator, outConn.variable.name));
+        for (const auto& inConn : find_signal_connections(signalConnections, functionName, function.in.name)) {
+            systemStructure.connect_variables(
+                full_variable_name(inConn.variable.simulator, inConn.variable.name),
+                full_variable_name(functionName, "in", ""));
+        }
+        for (const auto& outConn : find_signal_connections(signalConnections, functionName, function.out.name)) {
+            systemStructure.connect_variables(
+                full_variable_name(functionName, "out", ""),
+                full_variable_name(outConn.variable.simulator, outConn.variable.name));
+        }
     }
 }
 
@@ -897,15 +903,17 @@ void connect_sum_functions(
             functionParams);
 
         for (int i = 0; i < function.inputCount; i++) {
-            const auto inConn = find_signal_connection(signalConnections, functionName, function.ins.at(i).name);
+            for (const auto& inConn : find_signal_connections(signalConnections, functionName, function.ins.at(i).name)) {
+                systemStructure.connect_variables(
+                    full_variable_name(inConn.variable.simulator, inConn.variable.name),
+                    full_variable_name(functionName, "in", i, "", 0));
+            }
+        }
+        for (const auto& outConn : find_signal_connections(signalConnections, functionName, function.out.name)) {
             systemStructure.connect_variables(
-                full_variable_name(inConn.variable.simulator, inConn.variable.name),
-                full_variable_name(functionName, "in", i, "", 0));
+                full_variable_name(functionName, "out", ""),
+                full_variable_name(outConn.variable.simulator, outConn.variable.name));
         }
-        const auto outConn = find_signal_connection(signalConnections, functionName, function.out.name);
-        systemStructure.connect_variables(
-            full_variable_name(functionName, "out", ""),
-            full_variable_name(outConn.variable.simulator, outConn.variable.name));
     }
 }
 
@@ -925,28 +933,32 @@ void connect_vector_sum_functions(
             functionParams);
 
         for (int i = 0; i < function.inputCount; ++i) {
-            const auto inGroupConn = find_signal_connection(
+            const auto inGroupConns = find_signal_connections(
                 signalGroupConnections, functionName, function.inGroups.at(i).name);
-            const auto& inEmd = emds.at(inGroupConn.variable.simulator);
-            const auto& inVariableGroup = inEmd.variableGroups.at(inGroupConn.variable.name);
-
-            for (int j = 0; j < function.dimension; ++j) {
-                const auto& inVariableName = inVariableGroup.variables.at(j);
-                systemStructure.connect_variables(
-                    full_variable_name(inGroupConn.variable.simulator, inVariableName),
-                    full_variable_name(functionName, "in", i, "", j));
+            for (const auto& inGroupConn : inGroupConns) {
+                const auto& inEmd = emds.at(inGroupConn.variable.simulator);
+                const auto& inVariableGroup = inEmd.variableGroups.at(inGroupConn.variable.name);
+
+                for (int j = 0; j < function.dimension; ++j) {
+                    const auto& inVariableName = inVariableGroup.variables.at(j);
+                    systemStructure.connect_variables(
+                        full_variable_name(inGroupConn.variable.simulator, inVariableName),
+                        full_variable_name(functionName, "in", i, "", j));
+                }
             }
         }
 
-        const auto outGroupConn = find_signal_connection(
+        const auto outGroupConns = find_signal_connections(
             signalGroupConnections, functionName, function.outGroup.name);
-        const auto& outEmd = emds.at(outGroupConn.variable.simulator);
-        const auto& outVariableGroup = outEmd.variableGroups.at(outGroupConn.variable.name);
-        for (int j = 0; j < function.dimension; ++j) {
-            const auto& outVariableName = outVariableGroup.variables.at(j);
-            systemStructure.connect_variables(
-                full_variable_name(functionName, "out", 0, "", j),
-                full_variable_name(outGroupConn.variable.simulator, outVariableName));
+        for (const auto& outGroupConn : outGroupConns) {
+            const auto& outEmd = emds.at(outGroupConn.variable.simulator);
+            const auto& outVariableGroup = outEmd.variableGroups.at(outGroupConn.variable.name);
+            for (int j = 0; j < function.dimension; ++j) {
+                const auto& outVariableName = outVariableGroup.variables.at(j);
+                systemStructure.connect_variables(
+                    full_variable_name(functionName, "out", 0, "", j),
+                    full_variable_name(outGroupConn.variable.simulator, outVariableName));
+            }
         }
     }
 }
-- 
2.43.0


From 5a9ac2404928d77545f5ac038bbafcc5820fffbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:40:15 +0000
Subject: [PATCH 35/39] fix: report OSP connections to unknown functions or
 signals, and functions with the same name

---
 src/cosim/osp_config_parser.cpp | 51 +++++++++++++++++++++++++++++++--
 1 file changed, 48 insertions(+), 3 deletions(-)

diff --git a/src/cosim/osp_config_parser.cpp b/src/cosim/osp_config_parser.cpp
index 309f4f9..3c63dce 100644
--- a/src/cosim/osp_config_parser.cpp
+++ b/src/cosim/osp_config_parser.cpp
@@ -27,6 +27,7 @@
 #include <stdexcept>
 #include <string>
 #include <unordered_map>
+#include <unordered_set>
 #include <utility>
 #include <vector>
 #include <iostream>
@@ -382,6 +383,7 @@ osp_config_parser::osp_config_parser(
 
             const auto functionNodeName = std::string(tc(functionElement->getLocalName()).get());
             const auto functionName = std::string(tc(functionElement->getAttribute(tc("name").get())).get());
+            bool isNewFunction = false;
             if ("LinearTransformation" == functionNodeName) {
                 LinearTransformationFunction function;
                 function.name = functionName;
@@ -392,7 +394,7 @@ osp_config_parser::osp_config_parser(
                 function.in = {"in", variable_type::real, variable_causality::input};
                 function.out = {"out", variable_type::real, variable_causality::output};
 
-                linearTransformationFunctions_[functionName] = function;
+                isNewFunction = linearTransformationFunctions_.emplace(functionName, function).second;
 
             } else if ("Sum" == functionNodeName) {
                 SumFunction function;
@@ -407,7 +409,7 @@ osp_config_parser::osp_config_parser(
                 }
                 function.out = {"out", variable_type::real, variable_causality::output};
 
-                sumFunctions_[functionName] = function;
+                isNewFunction = sumFunctions_.emplace(functionName, function).second;
 
             } else if ("VectorSum" == functionNodeName) {
                 VectorSumFunction function;
@@ -438,13 +440,16 @@ osp_config_parser::osp_config_parser(
                 }
                 function.outGroup = sg;
 
-                vectorSumFunctions_[functionName] = function;
+                isNewFunction = vectorSumFunctions_.emplace(functionName, function).second;
 
             } else {
                 std::ostringstream oss;
                 oss << "Found unknown function type " << functionNodeName << " with name " << functionName;
                 throw std::runtime_error(oss.str());
             }
+            if (!isNewFunction) {
+                throw std::runtime_error("Found more than one function with name " + functionName);
+            }
         }
     }
 
@@ -718,6 +723,45 @@ std::vector<osp_config_parser::SignalConnection> find_signal_connections(
     return connections;
 }
 
+// Throws if a connection refers to a function or signal that does not exist.
+void check_signal_connections(
+    const std::vector<osp_config_parser::SignalConnection>& signalConnections,
+    const std::unordered_map<std::string, std::unordered_set<std::string>>& signals)
+{
+    for (const auto& connection : signalConnections) {
+        const auto function = signals.find(connection.signal.function);
+        if (function == signals.end() || function->second.count(connection.signal.name) == 0) {
+            std::ostringstream oss;
+            oss << "Cannot find signal " << connection.signal.function << ":" << connection.signal.name;
+            throw std::out_of_range(oss.str());
+        }
+    }
+}
+
+void check_signal_connections(const osp_config_parser& parser)
+{
+    std::unordered_map<std::string, std::unordered_set<std::string>> signals;
+    for (const auto& [name, function] : parser.get_linear_transformation_functions()) {
+        signals[name] = {function.in.name, function.out.name};
+    }
+    for (const auto& [name, function] : parser.get_sum_functions()) {
+        for (const auto& in : function.ins) {
+            signals[name].insert(in.name);
+        }
+        signals[name].insert(function.out.name);
+    }
+    check_signal_connections(parser.get_signal_connections(), signals);
+
+    std::unordered_map<std::string, std::unordered_set<std::string>> signalGroups;
+    for (const auto& [name, function] : parser.get_vector_sum_functions()) {
+        for (const auto& inGroup : function.inGroups) {
+            signalGroups[name].insert(inGroup.name);
+        }
+        signalGroups[name].insert(function.outGroup.name);
+    }
+    check_signal_connections(parser.get_signal_group_connections(), signalGroups);
+}
+
 } // namespace
 
 void connect_variables(
@@ -1048,6 +1092,7 @@ osp_config load_osp_config(
         }
     }
 
+    check_signal_connections(parser);
     connect_variables(parser.get_variable_connections(), config.system_structure);
     connect_variable_groups(parser.get_variable_group_connections(), config.system_structure, emds);
     connect_linear_transformation_functions(parser.get_linear_transformation_functions(), parser.get_signal_connections(), config.system_structure);
-- 
2.43.0


From 7d6e1a808d4420d65c82f428751489ac487592ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:46:49 +0000
Subject: [PATCH 36/39] fix: report SSP components with duplicate names instead
 of dropping one

---
 src/cosim/ssp/ssp_parser.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/cosim/ssp/ssp_parser.cpp b/src/cosim/ssp/ssp_parser.cpp
index 48692dd..5801804 100644
--- a/src/cosim/ssp/ssp_parser.cpp
+++ b/src/cosim/ssp/ssp_parser.cpp
@@ -185,7 +185,9 @@ ssp_parser::ssp_parser(const cosim::filesystem::path& ssdPath)
                 }
             }
         }
-        elements_[comp.name] = comp;
+        if (!elements_.emplace(comp.name, comp).second) {
+            throw std::runtime_error("Found more than one component with name " + comp.name);
+        }
     }
 
     if (const auto connections = system.get_child_optional("ssd:Connections")) {
-- 
2.43.0


From da8121ab725618afcdfebfeb4399ccf1ee787051 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:47:13 +0000
Subject: [PATCH 37/39] fix: report invalid SSP attribute values instead of
 using the default

---
 src/cosim/ssp/ssp_parser.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/cosim/ssp/ssp_parser.cpp b/src/cosim/ssp/ssp_parser.cpp
index 5801804..3e30f1b 100644
--- a/src/cosim/ssp/ssp_parser.cpp
+++ b/src/cosim/ssp/ssp_parser.cpp
@@ -18,14 +18,16 @@ namespace
 template<typename T>
 T get_attribute(const boost::property_tree::ptree& tree, const std::string& key, const std::optional<T> defaultValue = {})
 {
-    return !defaultValue ? tree.get<T>("<xmlattr>." + key) : tree.get<T>("<xmlattr>." + key, *defaultValue);
+    // The default is for a missing attribute, not for one with an invalid value.
+    const auto path = "<xmlattr>." + key;
+    return defaultValue && !tree.get_child_optional(path) ? *defaultValue : tree.get<T>(path);
 }
 
 template<typename T>
 std::optional<T> get_optional_attribute(const boost::property_tree::ptree& tree, const std::string& key)
 {
-    const auto result = tree.get_optional<T>("<xmlattr>." + key);
-    return result ? *result : std::optional<T>();
+    const auto path = "<xmlattr>." + key;
+    return tree.get_child_optional(path) ? tree.get<T>(path) : std::optional<T>();
 }
 
 variable_type parse_connector_type(const boost::property_tree::ptree& tree)
-- 
2.43.0


From 33929800b76cb5a3322cb3423d812bd9e600c4c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:13:35 +0000
Subject: [PATCH 38/39] fix: free the model description when an FMU is refused
 for not being a co-simulation FMU

---
 src/cosim/fmi/v1/fmu.cpp | 1 +
 src/cosim/fmi/v2/fmu.cpp | 1 +
 2 files changed, 2 insertions(+)

diff --git a/src/cosim/fmi/v1/fmu.cpp b/src/cosim/fmi/v1/fmu.cpp
index f7fc72c..ac44db5 100644
--- a/src/cosim/fmi/v1/fmu.cpp
+++ b/src/cosim/fmi/v1/fmu.cpp
@@ -53,6 +53,7 @@ fmu::fmu(
     const auto fmuKind = fmi1_import_get_fmu_kind(handle_);
     if (fmuKind != fmi1_fmu_kind_enu_cs_standalone &&
         fmuKind != fmi1_fmu_kind_enu_cs_tool) {
+        fmi1_import_free(handle_);
         throw error(
             make_error_code(errc::unsupported_feature),
             "Not a co-simulation FMU");
diff --git a/src/cosim/fmi/v2/fmu.cpp b/src/cosim/fmi/v2/fmu.cpp
index 7267c38..e48a326 100644
--- a/src/cosim/fmi/v2/fmu.cpp
+++ b/src/cosim/fmi/v2/fmu.cpp
@@ -52,6 +52,7 @@ fmu::fmu(
     }
     const auto fmuKind = fmi2_import_get_fmu_kind(handle_);
     if (!(fmuKind & fmi2_fmu_kind_cs)) {
+        fmi2_import_free(handle_);
         throw error(
             make_error_code(errc::unsupported_feature),
             "Not a co-simulation FMU");
-- 
2.43.0


From af2e4f30da38765d481507c3e1b6a282b2cfbd3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:15:23 +0000
Subject: [PATCH 39/39] fix: report a failing terminate call of a remote
 simulator

---
 src/cosim/proxy/remote_slave.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/cosim/proxy/remote_slave.cpp b/src/cosim/proxy/remote_slave.cpp
index 1144472..2cd03fc 100644
--- a/src/cosim/proxy/remote_slave.cpp
+++ b/src/cosim/proxy/remote_slave.cpp
@@ -64,8 +64,11 @@ void cosim::proxy::remote_slave::start_simulation()
 void cosim::proxy::remote_slave::end_simulation()
 {
     if (!terminated_) {
-        slave_->terminate();
         terminated_ = true;
+        auto status = slave_->terminate();
+        if (!status) {
+            bad_status_throw("terminate");
+        }
     }
 }
 
@@ -204,6 +207,8 @@ void cosim::proxy::remote_slave::set_string_variables(gsl::span<const cosim::val
 
 cosim::proxy::remote_slave::~remote_slave()
 {
-    remote_slave::end_simulation();
+    if (!terminated_) {
+        slave_->terminate();
+    }
     slave_->freeInstance();
 }
-- 
2.43.0

