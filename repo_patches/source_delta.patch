From 2295de9e2d66779a6784ecfa90b0089f46c58c83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:58 +0000
Subject: [PATCH 01/80] fix: check the query, not the path, for '#' when
 composing a URI

uri(..., query, ...) validated the path component twice, so a query
containing '#' was accepted and the resulting text was read back with a
different query and fragment.
---
 src/cosim/uri.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cosim/uri.cpp b/src/cosim/uri.cpp
index a2889d8..1da15dd 100644
--- a/src/cosim/uri.cpp
+++ b/src/cosim/uri.cpp
@@ -186,7 +186,7 @@ uri::uri(
     COSIM_INPUT_CHECK(!authority || all_chars_satisfy(is_authority_char, *authority));
     COSIM_INPUT_CHECK(!authority || path.empty() || path.front() == '/');
     COSIM_INPUT_CHECK(all_chars_satisfy(is_path_char, path));
-    COSIM_INPUT_CHECK(!query || all_chars_satisfy(is_query_char, path));
+    COSIM_INPUT_CHECK(!query || all_chars_satisfy(is_query_char, *query));
     data_.reserve(
         (scheme ? scheme->size() + 1 : 0) +
         (authority ? authority->size() + 2 : 0) +
-- 
2.43.0


From c7d396d5b3f2bba98b03f5281fdbf5b5459df894 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:58 +0000
Subject: [PATCH 02/80] fix: refuse URI paths that would be read as an
 authority or scheme

RFC 3986 section 3.3 forbids a path that starts with // if there is no
authority, and a colon in the first path segment if there is neither
scheme nor authority. The component constructor accepted both, giving a
URI whose text stands for other components.
---
 src/cosim/uri.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/cosim/uri.cpp b/src/cosim/uri.cpp
index 1da15dd..ff71099 100644
--- a/src/cosim/uri.cpp
+++ b/src/cosim/uri.cpp
@@ -186,6 +186,10 @@ uri::uri(
     COSIM_INPUT_CHECK(!authority || all_chars_satisfy(is_authority_char, *authority));
     COSIM_INPUT_CHECK(!authority || path.empty() || path.front() == '/');
     COSIM_INPUT_CHECK(all_chars_satisfy(is_path_char, path));
+    // RFC 3986 Sec. 3.3: A path must not be mistaken for an authority or a scheme.
+    COSIM_INPUT_CHECK(authority || path.substr(0, 2) != "//");
+    COSIM_INPUT_CHECK(scheme || authority ||
+        path.substr(0, path.find('/')).find(':') == std::string_view::npos);
     COSIM_INPUT_CHECK(!query || all_chars_satisfy(is_query_char, *query));
     data_.reserve(
         (scheme ? scheme->size() + 1 : 0) +
-- 
2.43.0


From ad478fc8b494eced167cecfa0ed1d3672041e306 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:58 +0000
Subject: [PATCH 03/80] fix: percent_decode() of strings with fewer than 3
 remaining characters

encoded.size() - 3 wrapped around, so strings (or tails) of one or two
characters were decoded wrongly and read out of bounds.
---
 src/cosim/uri.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cosim/uri.cpp b/src/cosim/uri.cpp
index ff71099..b3653ed 100644
--- a/src/cosim/uri.cpp
+++ b/src/cosim/uri.cpp
@@ -463,7 +463,7 @@ std::string percent_decode(std::string_view encoded)
     std::string decoded;
     while (!encoded.empty()) {
         const auto i = encoded.find('%');
-        if (i > encoded.size() - 3) {
+        if (i == std::string_view::npos || encoded.size() - i < 3) {
             decoded += encoded;
             encoded.remove_prefix(encoded.size());
         } else {
-- 
2.43.0


From 6071faba9b389f7c53732d9bb733908ca96668b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:58 +0000
Subject: [PATCH 04/80] fix: removal of empty path segments in URI reference
 resolution

When the last output segment was empty, '..' removed the segment before
it too: /a//../b was resolved to /b and not /a/b (RFC 3986 5.2.4).
---
 src/cosim/uri.cpp | 2 --
 1 file changed, 2 deletions(-)

diff --git a/src/cosim/uri.cpp b/src/cosim/uri.cpp
index b3653ed..ce4da52 100644
--- a/src/cosim/uri.cpp
+++ b/src/cosim/uri.cpp
@@ -313,8 +313,6 @@ std::string_view remove_dot_segments(
     outputBuffer.clear();
 
     const auto removeLastOutputSegment = [&] {
-        if (outputBuffer.empty()) return;
-        outputBuffer.pop_back();
         while (!outputBuffer.empty() && outputBuffer.back() != '/') outputBuffer.pop_back();
         if (!outputBuffer.empty()) outputBuffer.pop_back();
     };
-- 
2.43.0


From 546589da429175ae25c9433ffa4e0d10a9cf99a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:04 +0000
Subject: [PATCH 05/80] fix: report slave errors during initialisation as
 exceptions

Exceptions thrown in tasks run by the thread pool would otherwise
terminate the process.
---
 src/cosim/algorithm/fixed_step_algorithm.cpp | 50 +++++++++++++-------
 1 file changed, 32 insertions(+), 18 deletions(-)

diff --git a/src/cosim/algorithm/fixed_step_algorithm.cpp b/src/cosim/algorithm/fixed_step_algorithm.cpp
index d59ae4e..71318c4 100644
--- a/src/cosim/algorithm/fixed_step_algorithm.cpp
+++ b/src/cosim/algorithm/fixed_step_algorithm.cpp
@@ -151,32 +151,19 @@ public:
 
     void initialize()
     {
-        for (auto& s : simulators_) {
-            pool_.submit([&] {
-                s.second.sim->setup(startTime_, stopTime_, std::nullopt);
-            });
-        }
-        pool_.wait_for_tasks_to_finish();
+        for_each_simulator([&](simulator& s) {
+            s.setup(startTime_, stopTime_, std::nullopt);
+        });
 
         // Run N iterations of the simulators' and functions' step/calculation
         // procedures, where N is the number of simulators in the system,
         // to propagate initial values.
         for (std::size_t i = 0; i < simulators_.size() + functions_.size(); ++i) {
-            for (auto& s : simulators_) {
-                pool_.submit([&] {
-                    s.second.sim->do_iteration();
-                });
-            }
-            pool_.wait_for_tasks_to_finish();
+            for_each_simulator([](simulator& s) { s.do_iteration(); });
             calculate_and_transfer();
         }
 
-        for (auto& s : simulators_) {
-            pool_.submit([&] {
-                s.second.sim->start_simulation();
-            });
-        }
-        pool_.wait_for_tasks_to_finish();
+        for_each_simulator([](simulator& s) { s.start_simulation(); });
         calculate_and_transfer();
     }
 
@@ -273,6 +260,33 @@ private:
         std::vector<connection_fs> outgoingSimConnections;
     };
 
+    // Calls `f` for each simulator, waits for all the calls to complete, and
+    // throws an exception if any of them failed.
+    template<typename F>
+    void for_each_simulator(F f)
+    {
+        std::mutex m;
+        bool failed = false;
+        std::stringstream errMessages;
+        for (auto& s : simulators_) {
+            pool_.submit([&] {
+                try {
+                    f(*s.second.sim);
+                } catch (std::exception& ex) {
+                    std::lock_guard<std::mutex> lck(m);
+                    errMessages
+                        << s.second.sim->name() << ": "
+                        << ex.what() << '\n';
+                    failed = true;
+                }
+            });
+        }
+        pool_.wait_for_tasks_to_finish();
+        if (failed) {
+            throw error(make_error_code(errc::simulation_error), errMessages.str());
+        }
+    }
+
     void disconnect_simulator_variables(simulator_index i)
     {
         for (auto& s : simulators_) {
-- 
2.43.0


From b548662338d938a7ea5859f29b779352b1d77f11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:04 +0000
Subject: [PATCH 06/80] fix: let disconnect_variable() break function-simulator
 connections too

---
 src/cosim/algorithm/fixed_step_algorithm.cpp | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/cosim/algorithm/fixed_step_algorithm.cpp b/src/cosim/algorithm/fixed_step_algorithm.cpp
index 71318c4..a632725 100644
--- a/src/cosim/algorithm/fixed_step_algorithm.cpp
+++ b/src/cosim/algorithm/fixed_step_algorithm.cpp
@@ -124,6 +124,17 @@ public:
                 return;
             }
         }
+        for (auto& f : functions_) {
+            auto& conns = f.second.outgoingSimConnections;
+            const auto it = std::find_if(
+                conns.begin(),
+                conns.end(),
+                [input](const auto& c) { return c.target == input; });
+            if (it != conns.end()) {
+                conns.erase(it);
+                return;
+            }
+        }
     }
 
     void disconnect_variable(function_io_id input)
-- 
2.43.0


From 0a217e9c464d02fa3375e500ac149982902f26f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:04 +0000
Subject: [PATCH 07/80] fix: keep function decimation factors up to date

They were only updated when connecting a function to a simulator, not when
a target simulator's factor changed or a target went away.
---
 src/cosim/algorithm/fixed_step_algorithm.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/cosim/algorithm/fixed_step_algorithm.cpp b/src/cosim/algorithm/fixed_step_algorithm.cpp
index a632725..4c88e59 100644
--- a/src/cosim/algorithm/fixed_step_algorithm.cpp
+++ b/src/cosim/algorithm/fixed_step_algorithm.cpp
@@ -132,6 +132,7 @@ public:
                 [input](const auto& c) { return c.target == input; });
             if (it != conns.end()) {
                 conns.erase(it);
+                update_function_decimation_factor(f.second);
                 return;
             }
         }
@@ -233,6 +234,10 @@ public:
     {
         COSIM_INPUT_CHECK(factor > 0);
         simulators_.at(i).decimationFactor = factor;
+        // The factors of connected functions depend on it.
+        for (auto& f : functions_) {
+            update_function_decimation_factor(f.second);
+        }
     }
 
 
@@ -315,6 +320,7 @@ private:
                 connections.end(),
                 [i](const auto& c) { return c.target.simulator == i; });
             connections.erase(newEnd, connections.end());
+            update_function_decimation_factor(f.second);
         }
     }
 
-- 
2.43.0


From 98c9bb6b9e34c0053c33cdadefc9444a0d892f6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:38 +0000
Subject: [PATCH 08/80] fix: leave the running state when simulate_until()
 throws

---
 src/cosim/execution.cpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/cosim/execution.cpp b/src/cosim/execution.cpp
index 6f6b6bf..b94db23 100644
--- a/src/cosim/execution.cpp
+++ b/src/cosim/execution.cpp
@@ -10,6 +10,8 @@
 #include "cosim/slave_simulator.hpp"
 #include "cosim/utility/utility.hpp"
 
+#include <gsl/util>
+
 #include <algorithm>
 #include <atomic>
 #include <sstream>
@@ -146,15 +148,16 @@ public:
     bool simulate_until(std::optional<time_point> endTime)
     {
         stopped_ = false;
+        // Whether it ends normally or with an exception
+        const auto stopOnExit = gsl::finally([this] { stopped_ = true; });
+
         timer_.start(currentTime_);
         duration stepSize;
         do {
             stepSize = step();
             timer_.sleep(currentTime_);
         } while (!stopped_ && !timed_out(endTime, currentTime_, stepSize));
-        bool isStopped = stopped_;
-        stopped_ = true;
-        return !isStopped;
+        return !stopped_;
     }
 
     std::future<bool> simulate_until_async(std::optional<time_point> endTime)
-- 
2.43.0


From 81d93a1a0d2e5256499b795a2e9d9be53de3c6d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:38 +0000
Subject: [PATCH 09/80] fix: don't lose a stop request made right after
 simulate_until_async()

---
 src/cosim/execution.cpp | 40 +++++++++++++++++++++++++++-------------
 1 file changed, 27 insertions(+), 13 deletions(-)

diff --git a/src/cosim/execution.cpp b/src/cosim/execution.cpp
index b94db23..dbff0ff 100644
--- a/src/cosim/execution.cpp
+++ b/src/cosim/execution.cpp
@@ -148,23 +148,23 @@ public:
     bool simulate_until(std::optional<time_point> endTime)
     {
         stopped_ = false;
-        // Whether it ends normally or with an exception
-        const auto stopOnExit = gsl::finally([this] { stopped_ = true; });
-
-        timer_.start(currentTime_);
-        duration stepSize;
-        do {
-            stepSize = step();
-            timer_.sleep(currentTime_);
-        } while (!stopped_ && !timed_out(endTime, currentTime_, stepSize));
-        return !stopped_;
+        return run_until(endTime);
     }
 
     std::future<bool> simulate_until_async(std::optional<time_point> endTime)
     {
-        return std::async(std::launch::async, [this, endTime]{
-            return simulate_until(endTime);
-        });
+        // This must be done here and not in the other thread, as a subsequent
+        // `stop_simulation()` would otherwise be ignored if it is called
+        // before the thread gets going.
+        stopped_ = false;
+        try {
+            return std::async(std::launch::async, [this, endTime] {
+                return run_until(endTime);
+            });
+        } catch (...) {
+            stopped_ = true;
+            throw;
+        }
     }
 
     void stop_simulation()
@@ -262,6 +262,20 @@ public:
     }
 
 private:
+    bool run_until(std::optional<time_point> endTime)
+    {
+        // Whether it ends normally or with an exception
+        const auto stopOnExit = gsl::finally([this] { stopped_ = true; });
+
+        timer_.start(currentTime_);
+        duration stepSize;
+        do {
+            stepSize = step();
+            timer_.sleep(currentTime_);
+        } while (!stopped_ && !timed_out(endTime, currentTime_, stepSize));
+        return !stopped_;
+    }
+
     template<typename OutputID, typename InputID>
     void connect_variables_impl(
         std::unordered_map<InputID, OutputID>& connections,
-- 
2.43.0


From b1b645ace0f5dc1256034436d165ed0dfd5885d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:59 +0000
Subject: [PATCH 10/80] fix: refuse to continue a simulation after a failure

A second attempt would violate a precondition of the failed simulator and
terminate the process, or give the other simulators the same step again.
---
 src/cosim/execution.cpp | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/cosim/execution.cpp b/src/cosim/execution.cpp
index dbff0ff..6ce78a7 100644
--- a/src/cosim/execution.cpp
+++ b/src/cosim/execution.cpp
@@ -30,6 +30,7 @@ public:
         : lastStep_(0)
         , currentTime_(startTime)
         , initialized_(false)
+        , failed_(false)
         , stopped_(true)
         , algorithm_(std::move(algo))
         , timer_()
@@ -123,8 +124,15 @@ public:
 
     duration step()
     {
+        if (failed_) {
+            throw error(
+                make_error_code(errc::simulation_error),
+                "The simulation cannot continue after a previous failure");
+        }
         if (!initialized_) {
+            failed_ = true; // ...if initialize() throws
             algorithm_->initialize();
+            failed_ = false;
             initialized_ = true;
             for (const auto& obs : observers_) {
                 obs->simulation_initialized(lastStep_, currentTime_);
@@ -133,7 +141,9 @@ public:
         for (const auto& man : manipulators_) {
             man->step_commencing(currentTime_);
         }
+        failed_ = true; // ...if do_step() throws
         const auto [stepSize, finished] = algorithm_->do_step(currentTime_);
+        failed_ = false;
         currentTime_ += stepSize;
         ++lastStep_;
         for (const auto& obs : observers_) {
@@ -332,6 +342,10 @@ private:
     step_number lastStep_;
     time_point currentTime_;
     bool initialized_;
+
+    // Whether the algorithm has failed, i.e., thrown an exception, so that
+    // the simulators may be in any state.
+    bool failed_;
     std::atomic<bool> stopped_;
 
     std::shared_ptr<algorithm> algorithm_;
-- 
2.43.0


From cc78f70cf09769ef55ff7654085e3b50ac098ad2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:59 +0000
Subject: [PATCH 11/80] fix: notify observers of variable connections

---
 src/cosim/execution.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/cosim/execution.cpp b/src/cosim/execution.cpp
index 6ce78a7..2b38d17 100644
--- a/src/cosim/execution.cpp
+++ b/src/cosim/execution.cpp
@@ -100,6 +100,9 @@ public:
     void connect_variables(variable_id output, variable_id input)
     {
         connect_variables_impl(ssConnections_, output, input);
+        for (const auto& obs : observers_) {
+            obs->variables_connected(output, input, currentTime_);
+        }
     }
 
     void connect_variables(variable_id output, function_io_id input)
-- 
2.43.0


From eb789262dbb888d73242b2fd71a928bfb7a70f24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:12 +0000
Subject: [PATCH 12/80] fix: refuse connections with mismatched types, unknown
 function variables or a second source

Only connections of the same kind to an input were considered, and neither
the type nor the instance numbers of function variables were checked, so
that invalid connections only showed as errors or crashes when stepping.
---
 src/cosim/execution.cpp | 24 +++++++++++++++++++++++-
 1 file changed, 23 insertions(+), 1 deletion(-)

diff --git a/src/cosim/execution.cpp b/src/cosim/execution.cpp
index 2b38d17..97109e5 100644
--- a/src/cosim/execution.cpp
+++ b/src/cosim/execution.cpp
@@ -298,13 +298,26 @@ private:
         validate_variable(output, variable_causality::output);
         validate_variable(input, variable_causality::input);
 
-        if (connections.count(input)) {
+        if (is_connected(input)) {
             throw std::logic_error("Input variable already connected");
         }
+        if (output.type != input.type) {
+            throw std::logic_error("Error connecting variables: Types differ");
+        }
         algorithm_->connect_variables(output, input);
         connections.emplace(input, output);
     }
 
+    bool is_connected(variable_id input) const
+    {
+        return ssConnections_.count(input) || fsConnections_.count(input);
+    }
+
+    bool is_connected(function_io_id input) const
+    {
+        return sfConnections_.count(input) > 0;
+    }
+
     void validate_variable(variable_id variable, variable_causality causality)
     {
         const auto variables = simulators_.at(variable.simulator)->model_description().variables;
@@ -331,6 +344,15 @@ private:
         if (io.causality != causality) {
             throw std::logic_error("Error connecting function variable: Wrong causality");
         }
+        if (std::get<variable_type>(io.type) != variable.type) {
+            throw std::logic_error("Error connecting function variable: Wrong type");
+        }
+        if (variable.reference.group_instance < 0 ||
+            variable.reference.group_instance >= std::get<int>(group.count) ||
+            variable.reference.io_instance < 0 ||
+            variable.reference.io_instance >= std::get<int>(io.count)) {
+            throw std::out_of_range("Error connecting function variable: No such instance");
+        }
     }
 
     static bool timed_out(std::optional<time_point> endTime, time_point currentTime, duration stepSize)
-- 
2.43.0


From cd46b8dff9ad0367f7742d8f1a923d2d22222d0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:12 +0000
Subject: [PATCH 13/80] fix: refuse connections between enumeration variables
 instead of terminating

---
 src/cosim/execution.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/cosim/execution.cpp b/src/cosim/execution.cpp
index 97109e5..a7ecde1 100644
--- a/src/cosim/execution.cpp
+++ b/src/cosim/execution.cpp
@@ -304,6 +304,11 @@ private:
         if (output.type != input.type) {
             throw std::logic_error("Error connecting variables: Types differ");
         }
+        if (input.type == variable_type::enumeration) {
+            throw error(
+                make_error_code(errc::unsupported_feature),
+                "Cannot connect variables of type 'enumeration'");
+        }
         algorithm_->connect_variables(output, input);
         connections.emplace(input, output);
     }
-- 
2.43.0


From d3fb236d2d5674dd5ff11492d15f7ad347c72d26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:31 +0000
Subject: [PATCH 14/80] fix: accept connections from calculated parameters in
 execution

They are accepted by system_structure, so inject_system_structure() would
fail for such a system.
---
 src/cosim/execution.cpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/cosim/execution.cpp b/src/cosim/execution.cpp
index a7ecde1..f0f6515 100644
--- a/src/cosim/execution.cpp
+++ b/src/cosim/execution.cpp
@@ -329,7 +329,15 @@ private:
         const auto it = std::find_if(
             variables.begin(),
             variables.end(),
-            [=](const auto& var) { return var.causality == causality && var.type == variable.type && var.reference == variable.reference; });
+            [=](const auto& var) {
+                // Calculated parameters may be connected like outputs, see
+                // `system_structure`.
+                const auto effectiveCausality =
+                    var.causality == variable_causality::calculated_parameter
+                    ? variable_causality::output
+                    : var.causality;
+                return effectiveCausality == causality && var.type == variable.type && var.reference == variable.reference;
+            });
         if (it == variables.end()) {
             std::ostringstream oss;
             oss << "Problem adding connection: Cannot find variable with reference " << variable.reference
-- 
2.43.0


From b6875f805d17e8f2f600da79ad10c61785536918 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:04 +0000
Subject: [PATCH 15/80] fix: tolerate non-fatal bad-value reports from slaves

As documented in slave.hpp, these mean that the simulation can proceed.
---
 src/cosim/slave_simulator.cpp | 34 +++++++++++++++++++++++++---------
 1 file changed, 25 insertions(+), 9 deletions(-)

diff --git a/src/cosim/slave_simulator.cpp b/src/cosim/slave_simulator.cpp
index f985ec2..eed44fb 100644
--- a/src/cosim/slave_simulator.cpp
+++ b/src/cosim/slave_simulator.cpp
@@ -6,6 +6,8 @@
 #include "cosim/slave_simulator.hpp"
 
 #include "cosim/error.hpp"
+#include "cosim/exception.hpp"
+#include "cosim/log/logger.hpp"
 
 #include <algorithm>
 #include <cassert>
@@ -525,21 +527,35 @@ private:
         const auto [integerRefs, integerValues] = integerSetCache_.modify_and_get(deltaT);
         const auto [booleanRefs, booleanValues] = booleanSetCache_.modify_and_get(deltaT);
         const auto [stringRefs, stringValues] = stringSetCache_.modify_and_get(deltaT);
-        slave_->set_variables(
-            gsl::make_span(realRefs),
-            gsl::make_span(realValues),
-            gsl::make_span(integerRefs),
-            gsl::make_span(integerValues),
-            gsl::make_span(booleanRefs),
-            gsl::make_span(booleanValues),
-            gsl::make_span(stringRefs),
-            gsl::make_span(stringValues));
+        // A non-fatal error in one of these must not prevent the others.
+        tolerate_bad_values([&, refs = realRefs, values = realValues] {
+            slave_->set_real_variables(refs, values);
+        });
+        tolerate_bad_values([&, refs = integerRefs, values = integerValues] {
+            slave_->set_integer_variables(refs, values);
+        });
+        tolerate_bad_values([&, refs = booleanRefs, values = booleanValues] {
+            slave_->set_boolean_variables(refs, values);
+        });
+        tolerate_bad_values([&, refs = stringRefs, values = stringValues] {
+            slave_->set_string_variables(refs, values);
+        });
         realSetCache_.reset();
         integerSetCache_.reset();
         booleanSetCache_.reset();
         stringSetCache_.reset();
     }
 
+    template<typename F>
+    void tolerate_bad_values(F setter)
+    {
+        try {
+            setter();
+        } catch (const nonfatal_bad_value& e) {
+            BOOST_LOG_SEV(log::logger(), log::warning) << name_ << ": " << e.what();
+        }
+    }
+
     void get_variables(duration deltaT)
     {
         slave_->get_variables(
-- 
2.43.0


From 31e7f297abc9714fa75d533bb6e7daa9b04c81f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:04 +0000
Subject: [PATCH 16/80] fix: refuse output modifiers on variables that are not
 exposed

They would be applied to an unrelated variable, or written out of bounds.
---
 src/cosim/slave_simulator.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/cosim/slave_simulator.cpp b/src/cosim/slave_simulator.cpp
index eed44fb..791333a 100644
--- a/src/cosim/slave_simulator.cpp
+++ b/src/cosim/slave_simulator.cpp
@@ -147,7 +147,14 @@ struct get_variable_cache
 
     void set_modifier(value_reference r, std::function<T(T, duration)> m)
     {
-        modifiers[indexMapping[r]] = m;
+        const auto it = indexMapping.find(r);
+        if (it == indexMapping.end()) {
+            std::ostringstream oss;
+            oss << "Variable with reference " << r
+                << " not found in exposed variables. Variables must be exposed before calling set_modifier()";
+            throw std::out_of_range(oss.str());
+        }
+        modifiers[it->second] = m;
     }
 
     void run_modifiers(duration deltaT)
-- 
2.43.0


From fe66a4e9d4f9b78a6256f1e027836624ffc47687 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:51 +0000
Subject: [PATCH 17/80] fix: make variables that are exposed during simulation
 available at once

Their values were reported, and transferred to connected inputs, as zero
until the slave had completed another step.
---
 src/cosim/slave_simulator.cpp | 58 +++++++++++++++++++++++++++--------
 1 file changed, 46 insertions(+), 12 deletions(-)

diff --git a/src/cosim/slave_simulator.cpp b/src/cosim/slave_simulator.cpp
index 791333a..c9646ed 100644
--- a/src/cosim/slave_simulator.cpp
+++ b/src/cosim/slave_simulator.cpp
@@ -122,14 +122,23 @@ struct get_variable_cache
     std::vector<std::function<T(T, duration)>> modifiers;
     std::unordered_map<value_reference, std::size_t> indexMapping;
 
-    void expose(value_reference r)
+    // Returns false if the variable was already exposed.
+    bool expose(value_reference r)
     {
-        if (indexMapping.count(r)) return;
+        if (indexMapping.count(r)) return false;
         references.push_back(r);
         originalValues.push_back(T()); // TODO: Use start value from model description
         modifiedValues.push_back(T());
         modifiers.emplace_back();
         indexMapping[r] = references.size() - 1;
+        return true;
+    }
+
+    // Sets the value of the variable that was exposed last.
+    void set_last(T value)
+    {
+        originalValues.back() = value;
+        modifiedValues.back() = value;
     }
 
     typename var_view_type<T>::type get(value_reference r) const
@@ -329,24 +338,45 @@ public:
         return modelDescription_;
     }
 
-    void expose_for_getting(variable_type type, value_reference ref)
+    // Returns false if the variable was already exposed.
+    bool expose_for_getting(variable_type type, value_reference ref)
     {
         switch (type) {
             case variable_type::real:
-                realGetCache_.expose(ref);
-                break;
+                return realGetCache_.expose(ref);
             case variable_type::integer:
-                integerGetCache_.expose(ref);
-                break;
+                return integerGetCache_.expose(ref);
             case variable_type::boolean:
-                booleanGetCache_.expose(ref);
-                break;
+                return booleanGetCache_.expose(ref);
             case variable_type::string:
-                stringGetCache_.expose(ref);
-                break;
+                return stringGetCache_.expose(ref);
             case variable_type::enumeration:
                 COSIM_PANIC();
         }
+        return false;
+    }
+
+    // Retrieves the value of the variable that was exposed last.
+    void get_last_exposed(variable_type type, value_reference ref)
+    {
+        const auto refs = gsl::make_span(&ref, 1);
+        if (type == variable_type::real) {
+            double value = 0.0;
+            slave_->get_real_variables(refs, gsl::make_span(&value, 1));
+            realGetCache_.set_last(value);
+        } else if (type == variable_type::integer) {
+            int value = 0;
+            slave_->get_integer_variables(refs, gsl::make_span(&value, 1));
+            integerGetCache_.set_last(value);
+        } else if (type == variable_type::boolean) {
+            bool value = false;
+            slave_->get_boolean_variables(refs, gsl::make_span(&value, 1));
+            booleanGetCache_.set_last(value);
+        } else if (type == variable_type::string) {
+            std::string value;
+            slave_->get_string_variables(refs, gsl::make_span(&value, 1));
+            stringGetCache_.set_last(value);
+        }
     }
 
     double get_real(value_reference ref) const
@@ -661,7 +691,11 @@ cosim::model_description slave_simulator::model_description() const
 
 void slave_simulator::expose_for_getting(variable_type type, value_reference ref)
 {
-    pimpl_->expose_for_getting(type, ref);
+    if (pimpl_->expose_for_getting(type, ref) &&
+        (state_ == slave_state::initialisation || state_ == slave_state::simulation)) {
+        // Don't make the caller wait until the slave's next step.
+        pimpl_->get_last_exposed(type, ref);
+    }
 }
 
 
-- 
2.43.0


From 41a5fb793dbc36e2d912be08a3ee5efe67841c48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:36 +0000
Subject: [PATCH 18/80] fix: step numbers in time_series_observer when added
 during simulation

---
 src/cosim/observer/time_series_observer.cpp | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/cosim/observer/time_series_observer.cpp b/src/cosim/observer/time_series_observer.cpp
index 09d40b8..0114765 100644
--- a/src/cosim/observer/time_series_observer.cpp
+++ b/src/cosim/observer/time_series_observer.cpp
@@ -78,6 +78,17 @@ public:
 
     ~single_slave_observer() noexcept = default;
 
+    void initialize(step_number firstStep, time_point startTime)
+    {
+        {
+            // `firstStep` may differ from the step number assumed in the
+            // constructor if the observer was added during the simulation.
+            std::lock_guard<std::mutex> lock(lock_);
+            timeSamples_.clear();
+        }
+        observe(firstStep, startTime);
+    }
+
     void observe(step_number timeStep, time_point currentTime)
     {
         std::lock_guard<std::mutex> lock(lock_);
@@ -242,7 +253,7 @@ void time_series_observer::simulation_initialized(
     time_point startTime)
 {
     for (const auto& entry : slaveObservers_) {
-        entry.second->observe(firstStep, startTime);
+        entry.second->initialize(firstStep, startTime);
     }
 }
 
-- 
2.43.0


From b4a3c829ce38f7934c1aafb1b4717cc681cbe322 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:01 +0000
Subject: [PATCH 19/80] fix: don't append repeated metadata to existing log
 metadata files

---
 src/cosim/observer/file_observer.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cosim/observer/file_observer.cpp b/src/cosim/observer/file_observer.cpp
index eacfbcb..342fcd2 100644
--- a/src/cosim/observer/file_observer.cpp
+++ b/src/cosim/observer/file_observer.cpp
@@ -275,7 +275,7 @@ private:
         }
 
         const auto filePath = logDir_ / filename;
-        metadata_fw.open(filePath, std::ios_base::out | std::ios_base::app);
+        metadata_fw.open(filePath, std::ios_base::out | std::ios_base::trunc);
 
         if (fsw_.fail()) {
             std::stringstream error;
-- 
2.43.0


From 251a404b230aed761f0c52976596e0b88ea4c331 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:22 +0000
Subject: [PATCH 20/80] fix: quote variable names and strings with commas etc.
 in CSV logs

---
 src/cosim/observer/file_observer.cpp | 31 +++++++++++++++++++++++-----
 1 file changed, 26 insertions(+), 5 deletions(-)

diff --git a/src/cosim/observer/file_observer.cpp b/src/cosim/observer/file_observer.cpp
index 342fcd2..1bca7bc 100644
--- a/src/cosim/observer/file_observer.cpp
+++ b/src/cosim/observer/file_observer.cpp
@@ -18,6 +18,8 @@
 #include <map>
 #include <mutex>
 #include <sstream>
+#include <string_view>
+#include <type_traits>
 #include <utility>
 #include <vector>
 
@@ -47,6 +49,21 @@ void clear_file_contents_if_exists(const cosim::filesystem::path& filePath, std:
     }
 }
 
+// Quotes text which would otherwise be taken for several fields or records.
+std::string csv_field(std::string_view text)
+{
+    if (text.find_first_of(",\"\r\n") == std::string_view::npos) {
+        return std::string(text);
+    }
+    std::string quoted = "\"";
+    for (const char c : text) {
+        if (c == '"') quoted += '"';
+        quoted += c;
+    }
+    quoted += '"';
+    return quoted;
+}
+
 } // namespace
 
 
@@ -144,7 +161,11 @@ private:
     void write(const std::vector<T>& values, std::stringstream& ss)
     {
         for (auto it = values.begin(); it != values.end(); ++it) {
-            ss << "," << *it;
+            if constexpr (std::is_same_v<T, std::string_view>) {
+                ss << "," << csv_field(*it);
+            } else {
+                ss << "," << *it;
+            }
         }
     }
 
@@ -225,16 +246,16 @@ private:
 
         // Add variable names
         for (const auto& vd : realVars_) {
-            ss << "," << vd.name;
+            ss << "," << csv_field(vd.name);
         }
         for (const auto& vd : intVars_) {
-            ss << "," << vd.name;
+            ss << "," << csv_field(vd.name);
         }
         for (const auto& vd : boolVars_) {
-            ss << "," << vd.name;
+            ss << "," << csv_field(vd.name);
         }
         for (const auto& vd : stringVars_) {
-            ss << "," << vd.name;
+            ss << "," << csv_field(vd.name);
         }
 
         ss << std::endl;
-- 
2.43.0


From 819e66673ca7bbffaa19c90211e4faaaa0419951 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:53 +0000
Subject: [PATCH 21/80] fix: reject invalid decimation factors in file_observer
 configurations

---
 include/cosim/observer/file_observer.hpp | 12 ++++++++++--
 src/cosim/observer/file_observer.cpp     | 17 ++++++++++++++++-
 2 files changed, 26 insertions(+), 3 deletions(-)

diff --git a/include/cosim/observer/file_observer.hpp b/include/cosim/observer/file_observer.hpp
index 686cac2..7532d20 100644
--- a/include/cosim/observer/file_observer.hpp
+++ b/include/cosim/observer/file_observer.hpp
@@ -15,6 +15,7 @@
 
 #include <atomic>
 #include <memory>
+#include <stdexcept>
 #include <unordered_map>
 
 
@@ -57,7 +58,7 @@ public:
         const std::vector<std::string>& variableNames,
         std::optional<size_t> decimationFactor = std::nullopt)
     {
-        variablesToLog_[simulatorName].first = decimationFactor.value_or(defaultDecimationFactor_);
+        variablesToLog_[simulatorName].first = checked_decimation_factor(decimationFactor);
         for (const auto& variableName : variableNames) {
             variablesToLog_[simulatorName].second.emplace_back(variableName);
         }
@@ -76,7 +77,7 @@ public:
         const std::string& simulatorName,
         std::optional<size_t> decimationFactor = std::nullopt)
     {
-        variablesToLog_[simulatorName].first = decimationFactor.value_or(defaultDecimationFactor_);
+        variablesToLog_[simulatorName].first = checked_decimation_factor(decimationFactor);
         variablesToLog_[simulatorName].second = {}; // empty variable means log all
         return *this;
     }
@@ -106,6 +107,13 @@ private:
 
     std::unordered_map<std::string, std::pair<size_t, std::vector<std::string>>> variablesToLog_;
 
+    [[nodiscard]] size_t checked_decimation_factor(std::optional<size_t> decimationFactor) const
+    {
+        const auto factor = decimationFactor.value_or(defaultDecimationFactor_);
+        if (factor == 0) throw std::invalid_argument("Decimation factor must be positive");
+        return factor;
+    }
+
     [[nodiscard]] bool should_log_simulator(const std::string& name) const
     {
         return variablesToLog_.count(name);
diff --git a/src/cosim/observer/file_observer.cpp b/src/cosim/observer/file_observer.cpp
index 1bca7bc..b43a0f7 100644
--- a/src/cosim/observer/file_observer.cpp
+++ b/src/cosim/observer/file_observer.cpp
@@ -8,10 +8,12 @@
 #include "cosim/error.hpp"
 #include "cosim/log/logger.hpp"
 
+#include <boost/algorithm/string/trim.hpp>
 #include <boost/date_time/local_time/local_time.hpp>
 #include <boost/property_tree/xml_parser.hpp>
 
 #include <algorithm>
+#include <charconv>
 #include <codecvt>
 #include <fstream>
 #include <locale>
@@ -407,6 +409,19 @@ std::optional<T> get_optional_attribute(const boost::property_tree::ptree& tree,
     return result ? *result : std::optional<T>();
 }
 
+std::optional<size_t> get_decimation_factor(const boost::property_tree::ptree& tree)
+{
+    auto text = get_optional_attribute<std::string>(tree, "decimationFactor");
+    if (!text) return std::nullopt;
+    boost::algorithm::trim(*text);
+    size_t factor = 0;
+    const auto [end, error] = std::from_chars(text->data(), text->data() + text->size(), factor);
+    if (error != std::errc() || end != text->data() + text->size()) {
+        throw std::runtime_error("Invalid decimation factor: " + *text);
+    }
+    return factor;
+}
+
 } // namespace
 
 void file_observer::simulator_added(
@@ -582,7 +597,7 @@ file_observer_config file_observer_config::parse(const filesystem::path& configP
     for (const auto& simulator : ptree.get_child("simulators")) {
         if (simulator.first == "simulator") {
             const auto modelName = get_attribute<std::string>(simulator.second, "name");
-            const auto decimationFactor = get_optional_attribute<size_t>(simulator.second, "decimationFactor");
+            const auto decimationFactor = get_decimation_factor(simulator.second);
             std::vector<std::string> variableNames;
             for (const auto& variable : simulator.second) {
                 if (variable.first == "variable") {
-- 
2.43.0


From ad95e772d1e9a1fed4fbef14a91e5aa4c636227b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:46 +0000
Subject: [PATCH 22/80] fix: execute scenario events which are due in the same
 step in chronological order

---
 src/cosim/manipulator/scenario_manager.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/cosim/manipulator/scenario_manager.cpp b/src/cosim/manipulator/scenario_manager.cpp
index 467dbb1..1f0814a 100644
--- a/src/cosim/manipulator/scenario_manager.cpp
+++ b/src/cosim/manipulator/scenario_manager.cpp
@@ -11,6 +11,9 @@
 #include "cosim/scenario_parser.hpp"
 #include "cosim/utility/utility.hpp"
 
+#include <algorithm>
+#include <map>
+
 
 namespace cosim
 {
@@ -34,7 +37,10 @@ public:
         state.startTime = currentTime;
         state.endTime = s.end;
 
-        for (const auto& event : s.events) {
+        auto events = s.events;
+        std::stable_sort(
+            events.begin(), events.end(), [](const auto& a, const auto& b) { return a.time < b.time; });
+        for (const auto& event : events) {
             const auto index = static_cast<int>(state.remainingEvents.size());
             state.remainingEvents[index] = event;
         }
@@ -110,7 +116,7 @@ public:
 private:
     struct scenario_state
     {
-        std::unordered_map<int, scenario::event> remainingEvents;
+        std::map<int, scenario::event> remainingEvents;
         std::unordered_map<int, scenario::event> executedEvents;
         time_point startTime;
         std::optional<time_point> endTime;
-- 
2.43.0


From 05412ec8d217c9e473e5b24f3cd581ef416f83bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:57 +0000
Subject: [PATCH 23/80] fix: end scenarios at their end time also when events
 remain

---
 src/cosim/manipulator/scenario_manager.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/cosim/manipulator/scenario_manager.cpp b/src/cosim/manipulator/scenario_manager.cpp
index 1f0814a..df2fdbb 100644
--- a/src/cosim/manipulator/scenario_manager.cpp
+++ b/src/cosim/manipulator/scenario_manager.cpp
@@ -65,8 +65,8 @@ public:
 
         const auto relativeTime = currentTime - state.startTime.time_since_epoch();
 
-        bool timedOut = state.endTime ? relativeTime >= *state.endTime : true;
-        if (state.remainingEvents.empty() && timedOut) {
+        const bool finished = state.endTime ? relativeTime >= *state.endTime : state.remainingEvents.empty();
+        if (finished) {
             BOOST_LOG_SEV(log::logger(), log::info)
                 << "Scenario finished at relative time "
                 << to_double_time_point(relativeTime)
-- 
2.43.0


From 9c2387c48ea128a17d6931452bfe57d4307f850b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:09 +0000
Subject: [PATCH 24/80] fix: release modified variables when a scenario is
 replaced by another

---
 src/cosim/manipulator/scenario_manager.cpp | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/cosim/manipulator/scenario_manager.cpp b/src/cosim/manipulator/scenario_manager.cpp
index df2fdbb..be2bf49 100644
--- a/src/cosim/manipulator/scenario_manager.cpp
+++ b/src/cosim/manipulator/scenario_manager.cpp
@@ -33,6 +33,9 @@ public:
 
     void load_scenario(const scenario::scenario& s, time_point currentTime)
     {
+        // Release the variables modified by the scenario that is being replaced.
+        cleanup();
+
         state = scenario_state{};
         state.startTime = currentTime;
         state.endTime = s.end;
@@ -72,7 +75,7 @@ public:
                 << to_double_time_point(relativeTime)
                 << ", performing cleanup";
             state.running = false;
-            cleanup(state.executedEvents);
+            cleanup();
             return;
         }
 
@@ -108,9 +111,8 @@ public:
         BOOST_LOG_SEV(log::logger(), log::info)
             << "Scenario aborted, performing cleanup";
         state.running = false;
-        cleanup(state.executedEvents);
+        cleanup();
         state.remainingEvents.clear();
-        state.executedEvents.clear();
     }
 
 private:
@@ -217,12 +219,13 @@ private:
             a.modifier);
     }
 
-    void cleanup(const std::unordered_map<int, scenario::event>& executedEvents)
+    void cleanup()
     {
-        for (const auto& entry : executedEvents) {
+        for (const auto& entry : state.executedEvents) {
             auto e = entry.second;
             cleanup_action(simulators_[e.action.simulator], e.action);
         }
+        state.executedEvents.clear();
     }
 
     scenario_state state;
-- 
2.43.0


From 545cf66d7f187398122af808b57e6680ca6a1e0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:26 +0000
Subject: [PATCH 25/80] fix: report unknown variables in scenario files as
 errors

---
 src/cosim/scenario_parser.cpp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/cosim/scenario_parser.cpp b/src/cosim/scenario_parser.cpp
index 6306429..d7d9921 100644
--- a/src/cosim/scenario_parser.cpp
+++ b/src/cosim/scenario_parser.cpp
@@ -215,8 +215,15 @@ scenario::scenario parse_scenario(
             find_simulator(simulators, specified_or_default(event, "model", defaultOpts.model));
         auto varName =
             specified_or_default(event, "variable", defaultOpts.variable);
-        const auto var =
-            *find_variable(simulator->model_description(), varName);
+        const auto maybeVar =
+            find_variable(simulator->model_description(), varName);
+        if (!maybeVar) {
+            std::ostringstream oss;
+            oss << "Can't find variable with name: " << varName
+                << " in model: " << simulator->name();
+            throw std::invalid_argument(oss.str());
+        }
+        const auto var = *maybeVar;
 
         auto mode = specified_or_default(event, "action", defaultOpts.action);
         bool isInput = is_input(var.causality);
-- 
2.43.0


From 48cac4136e4ddef0fee7411993397d73d2ce6f95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:46 +0000
Subject: [PATCH 26/80] fix: report references to the wrong kind of entity as
 invalid_system_structure errors

---
 src/cosim/system_structure.cpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/cosim/system_structure.cpp b/src/cosim/system_structure.cpp
index 4e285c6..51c2ce6 100644
--- a/src/cosim/system_structure.cpp
+++ b/src/cosim/system_structure.cpp
@@ -209,8 +209,10 @@ const variable_description& system_structure::get_variable_description(
             "Unknown simulator name: " + v.entity_name);
     }
     const auto model = entity_type_to<cosim::model>(sit->second.type);
-    if (!model) {
-        throw std::logic_error("Not a simulator: " + to_text(v));
+    if (!model || !v.is_simulator_variable()) {
+        throw error(
+            make_error_code(errc::invalid_system_structure),
+            "Not a simulator variable: " + to_text(v));
     }
     const auto& modelInfo = modelCache_.at(model->description()->uuid);
     const auto vit = modelInfo.variables.find(v.variable_name);
@@ -235,7 +237,9 @@ system_structure::get_function_io_description(
     }
     const auto functionType = entity_type_to<function_type>(fit->second.type);
     if (!functionType) {
-        throw std::logic_error("Not a function: " + to_text(v));
+        throw error(
+            make_error_code(errc::invalid_system_structure),
+            "Not a function: " + to_text(v));
     }
     const auto& functionInfo = functionCache_.at(v.entity_name);
     const auto git = functionInfo.ios.find(v.variable_group_name);
-- 
2.43.0


From ba095d02d208e1c19366bba760c50f752dd16cd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:00 +0000
Subject: [PATCH 27/80] fix: check the instance numbers of function variables
 in system structures

---
 src/cosim/system_structure.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/cosim/system_structure.cpp b/src/cosim/system_structure.cpp
index 51c2ce6..b5cb3bd 100644
--- a/src/cosim/system_structure.cpp
+++ b/src/cosim/system_structure.cpp
@@ -254,6 +254,15 @@ system_structure::get_function_io_description(
             make_error_code(errc::invalid_system_structure),
             "No such variable: " + to_text(v));
     }
+    const auto groupCount = std::get<int>(
+        functionInfo.description.io_groups.at(vit->second.group_index).count);
+    const auto ioCount = std::get<int>(vit->second.description.count);
+    if (v.variable_group_instance < 0 || v.variable_group_instance >= groupCount ||
+        v.variable_instance < 0 || v.variable_instance >= ioCount) {
+        throw error(
+            make_error_code(errc::invalid_system_structure),
+            "No such variable: " + to_text(v));
+    }
     return vit->second;
 }
 
-- 
2.43.0


From f9f1bea827249807b378d454a229a70ce0044907 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:44 +0000
Subject: [PATCH 28/80] fix: ignore instance numbers when comparing names of
 simulator variables

---
 include/cosim/system_structure.hpp | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/include/cosim/system_structure.hpp b/include/cosim/system_structure.hpp
index b5c4603..3d9a768 100644
--- a/include/cosim/system_structure.hpp
+++ b/include/cosim/system_structure.hpp
@@ -108,9 +108,10 @@ inline bool operator==(
 {
     return a.entity_name == b.entity_name &&
         a.variable_group_name == b.variable_group_name &&
-        a.variable_group_instance == b.variable_group_instance &&
         a.variable_name == b.variable_name &&
-        a.variable_instance == b.variable_instance;
+        (a.is_simulator_variable() ||
+            (a.variable_group_instance == b.variable_group_instance &&
+                a.variable_instance == b.variable_instance));
 }
 
 /// Inequality operator for `full_variable_name`.
@@ -148,9 +149,11 @@ struct hash<cosim::full_variable_name>
         std::size_t h = 0;
         boost::hash_combine(h, v.entity_name);
         boost::hash_combine(h, v.variable_group_name);
-        boost::hash_combine(h, v.variable_group_instance);
         boost::hash_combine(h, v.variable_name);
-        boost::hash_combine(h, v.variable_instance);
+        if (!v.is_simulator_variable()) {
+            boost::hash_combine(h, v.variable_group_instance);
+            boost::hash_combine(h, v.variable_instance);
+        }
         return h;
     }
 };
-- 
2.43.0


From dd46adc5de962096b52ed68964fdf631e001b434 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:07 +0000
Subject: [PATCH 29/80] fix: validate all function parameters when adding
 entities to system structures

---
 src/cosim/system_structure.cpp | 33 +++++++++++++++++++++++++++++++++
 1 file changed, 33 insertions(+)

diff --git a/src/cosim/system_structure.cpp b/src/cosim/system_structure.cpp
index b5cb3bd..8cb2609 100644
--- a/src/cosim/system_structure.cpp
+++ b/src/cosim/system_structure.cpp
@@ -73,6 +73,37 @@ make_variable_lookup_table(const function_description& fd)
     return table;
 }
 
+void validate_function_parameters(
+    const function_type_description& fd,
+    const function_parameter_value_map& parameterValues)
+{
+    for (const auto& parameter : parameterValues) {
+        const auto index = parameter.first;
+        const auto& value = parameter.second;
+        if (index < 0 || static_cast<std::size_t>(index) >= fd.parameters.size()) {
+            throw std::out_of_range(
+                "Invalid parameter index: " + std::to_string(index));
+        }
+        const auto& descr = fd.parameters[index];
+        const auto valueType = std::visit(
+            visitor(
+                [](double) { return function_parameter_type::real; },
+                [](int) { return function_parameter_type::integer; },
+                [](variable_type) { return function_parameter_type::type; }),
+            value);
+        if (valueType != descr.type) {
+            throw std::domain_error(
+                "Parameter '" + descr.name + "': Illegal value type");
+        }
+        if (valueType != function_parameter_type::type &&
+            ((descr.min_value && value < *descr.min_value) ||
+                (descr.max_value && value > *descr.max_value))) {
+            throw std::domain_error(
+                "Parameter '" + descr.name + "' is out of bounds");
+        }
+    }
+}
+
 error make_connection_error(
     const system_structure::connection& c, const std::string& e)
 {
@@ -115,6 +146,8 @@ void system_structure::add_entity(const entity& e)
         assert(functionType);
         function_info info;
         try {
+            validate_function_parameters(
+                functionType->description(), e.parameter_values);
             info.description = substitute_function_parameters(
                 functionType->description(),
                 e.parameter_values);
-- 
2.43.0


From dbb3e3dcda77134df11b05a43c0f05b0c3ab7719 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:56 +0000
Subject: [PATCH 30/80] fix: refuse archive entries with paths that lead out of
 the target directory

---
 src/cosim/utility/zip.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/cosim/utility/zip.cpp b/src/cosim/utility/zip.cpp
index 0e156ee..f540036 100644
--- a/src/cosim/utility/zip.cpp
+++ b/src/cosim/utility/zip.cpp
@@ -256,6 +256,12 @@ void archive::extract_all(
                 throw error(
                     "Archive contains an entry with an absolute path: " + entryName);
             }
+            for (const auto& element : entryPath) {
+                if (element == "..") {
+                    throw error(
+                        "Archive contains an entry with a path outside the target directory: " + entryName);
+                }
+            }
             const auto targetPath = targetDir / entryPath;
             if (entryName.back() == '/') {
                 cosim::filesystem::create_directories(targetPath);
-- 
2.43.0


From 12e14469b30826314a9d2fc9efc8213ffa27cf4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:11 +0000
Subject: [PATCH 31/80] fix: report errors that occur when the last part of an
 extracted file is written

---
 src/cosim/utility/zip.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/cosim/utility/zip.cpp b/src/cosim/utility/zip.cpp
index f540036..dc627d3 100644
--- a/src/cosim/utility/zip.cpp
+++ b/src/cosim/utility/zip.cpp
@@ -226,6 +226,7 @@ void extract_file_as(
             targetPath.string());
     }
     copy_to_stream(srcFile, tgtFile, buffer);
+    tgtFile.close(); // flushes the stream, which may fail too
     if (tgtFile.fail()) {
         throw std::system_error(
             make_error_code(std::errc::io_error),
-- 
2.43.0


From 0674d4b1b3cca6895298fedd2958535e95f884c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:39 +0000
Subject: [PATCH 32/80] fix: don't read before the start of empty archive entry
 names

---
 src/cosim/utility/zip.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cosim/utility/zip.cpp b/src/cosim/utility/zip.cpp
index dc627d3..d32dc55 100644
--- a/src/cosim/utility/zip.cpp
+++ b/src/cosim/utility/zip.cpp
@@ -182,7 +182,7 @@ bool archive::is_dir_entry(entry_index index) const
     }
     if ((zs.valid & ZIP_STAT_NAME) && (zs.valid & ZIP_STAT_SIZE) && (zs.valid & ZIP_STAT_CRC)) {
         const auto nameLen = std::strlen(zs.name);
-        return zs.name[nameLen - 1] == '/' && zs.size == 0 && zs.crc == 0;
+        return nameLen > 0 && zs.name[nameLen - 1] == '/' && zs.size == 0 && zs.crc == 0;
     } else {
         throw error("Cannot determine entry type");
     }
-- 
2.43.0


From 643ebef29bd1c064a542e54aa842b87fb772d58a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:47 +0000
Subject: [PATCH 33/80] fix: give the keys "", "." and ".." subdirectories of
 their own in temporary file caches

---
 src/cosim/file_cache.cpp | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/cosim/file_cache.cpp b/src/cosim/file_cache.cpp
index 36f5247..a43ab54 100644
--- a/src/cosim/file_cache.cpp
+++ b/src/cosim/file_cache.cpp
@@ -84,7 +84,7 @@ public:
             throw std::logic_error(
                 "Cache subdirectory already in use: " + std::string(key));
         }
-        const auto path = root_->path() / percent_encode(key);
+        const auto path = subdir_path(key);
         cosim::filesystem::create_directories(path);
 
         auto ownership = std::make_shared<dummy>();
@@ -99,7 +99,7 @@ public:
             throw std::logic_error(
                 "Cache subdirectory already in use: " + std::string(key));
         }
-        const auto path = root_->path() / percent_encode(key);
+        const auto path = subdir_path(key);
 
         auto ownership = std::make_shared<dummy>();
         owns.ro = ownership;
@@ -126,6 +126,15 @@ private:
         return it->second;
     }
 
+    cosim::filesystem::path subdir_path(std::string_view key) const
+    {
+        // The suffix keeps keys like "", "." and ".." from being special.
+        auto p = root_->path();
+        p /= percent_encode(key);
+        p += ".data";
+        return p;
+    }
+
     std::shared_ptr<utility::temp_dir> root_;
     std::unordered_map<std::string, subdirectory_ownership> ownerships_;
 };
-- 
2.43.0


From 78179a0bdc1a52afda4ce7564822fe53c2e8bf92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:23 +0000
Subject: [PATCH 34/80] fix: track all read-only handles to subdirectories of
 temporary file caches

---
 src/cosim/file_cache.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/cosim/file_cache.cpp b/src/cosim/file_cache.cpp
index a43ab54..2f24da8 100644
--- a/src/cosim/file_cache.cpp
+++ b/src/cosim/file_cache.cpp
@@ -101,8 +101,12 @@ public:
         }
         const auto path = subdir_path(key);
 
-        auto ownership = std::make_shared<dummy>();
-        owns.ro = ownership;
+        // Ownership is shared with any other read-only handles.
+        auto ownership = owns.ro.lock();
+        if (!ownership) {
+            ownership = std::make_shared<dummy>();
+            owns.ro = ownership;
+        }
         return std::make_unique<temporary_file_cache_directory>(root_, path, ownership);
     }
 
-- 
2.43.0


From 87da9fedce67dccaf8d11c8b51a095f115b8521e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:06 +0000
Subject: [PATCH 35/80] fix: don't take waits for file locks held by other
 threads for deadlocks

---
 src/cosim/utility/concurrency.cpp | 36 +++++++++++++++++++++++++++++--
 1 file changed, 34 insertions(+), 2 deletions(-)

diff --git a/src/cosim/utility/concurrency.cpp b/src/cosim/utility/concurrency.cpp
index c55d14a..d8fe527 100644
--- a/src/cosim/utility/concurrency.cpp
+++ b/src/cosim/utility/concurrency.cpp
@@ -5,8 +5,12 @@
  */
 #include "cosim/utility/concurrency.hpp"
 
+#include <boost/interprocess/exceptions.hpp>
+
 #include <cassert>
+#include <chrono>
 #include <system_error>
+#include <thread>
 #include <vector>
 
 #ifdef _WIN32
@@ -162,11 +166,39 @@ file_lock::boost_wrapper::boost_wrapper(const cosim::filesystem::path& path)
  *  first.  (See file_lock::lock().)
  */
 
+namespace
+{
+// Performs a blocking file lock operation.
+//
+// On POSIX systems, file locks belong to processes rather than threads, and
+// the OS refuses to block a process if that seems to cause a deadlock.
+// However, it is no deadlock if the locks that others are waiting for are held
+// by other threads than the one which would be blocked, so we try again.
+template<typename F>
+void lock_despite_deadlock_detection(F&& lock)
+{
+#ifdef _WIN32
+    lock();
+#else
+    for (;;) {
+        try {
+            lock();
+            return;
+        } catch (const boost::interprocess::interprocess_exception& e) {
+            if (e.get_native_error() != EDEADLK) throw;
+        }
+        std::this_thread::sleep_for(std::chrono::milliseconds(1));
+    }
+#endif
+}
+} // namespace
+
+
 void file_lock::boost_wrapper::lock()
 {
     std::lock_guard<std::mutex> countLock(shareCountMutex_);
     assert(shareCount_ == 0);
-    fileLock_.lock();
+    lock_despite_deadlock_detection([this]() { fileLock_.lock(); });
     shareCount_ = -1;
 }
 
@@ -195,7 +227,7 @@ void file_lock::boost_wrapper::lock_shared()
     std::lock_guard<std::mutex> countLock(shareCountMutex_);
     assert(shareCount_ >= 0);
     if (shareCount_ == 0) {
-        fileLock_.lock_sharable();
+        lock_despite_deadlock_detection([this]() { fileLock_.lock_sharable(); });
     }
     ++shareCount_;
 }
-- 
2.43.0


From 9cc77fe0e3a72a13f0dbdd8ffb345e2ec7d8a093 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:45 +0000
Subject: [PATCH 36/80] fix: don't block in file_lock::try_lock_shared() while
 another thread waits for the lock

---
 src/cosim/utility/concurrency.cpp | 22 ++++++++++++++++++++--
 src/cosim/utility/concurrency.hpp |  2 ++
 2 files changed, 22 insertions(+), 2 deletions(-)

diff --git a/src/cosim/utility/concurrency.cpp b/src/cosim/utility/concurrency.cpp
index d8fe527..a8f4935 100644
--- a/src/cosim/utility/concurrency.cpp
+++ b/src/cosim/utility/concurrency.cpp
@@ -224,10 +224,25 @@ void file_lock::boost_wrapper::unlock()
 
 void file_lock::boost_wrapper::lock_shared()
 {
-    std::lock_guard<std::mutex> countLock(shareCountMutex_);
+    std::unique_lock<std::mutex> countLock(shareCountMutex_);
     assert(shareCount_ >= 0);
+    sharedLockPendingDone_.wait(countLock, [this]() { return !sharedLockPending_; });
     if (shareCount_ == 0) {
-        lock_despite_deadlock_detection([this]() { fileLock_.lock_sharable(); });
+        // Don't hold the mutex while we wait for other processes, because
+        // that would block try_lock_shared() in other threads.
+        sharedLockPending_ = true;
+        countLock.unlock();
+        try {
+            lock_despite_deadlock_detection([this]() { fileLock_.lock_sharable(); });
+        } catch (...) {
+            countLock.lock();
+            sharedLockPending_ = false;
+            sharedLockPendingDone_.notify_all();
+            throw;
+        }
+        countLock.lock();
+        sharedLockPending_ = false;
+        sharedLockPendingDone_.notify_all();
     }
     ++shareCount_;
 }
@@ -237,6 +252,9 @@ bool file_lock::boost_wrapper::try_lock_shared()
 {
     std::lock_guard<std::mutex> countLock(shareCountMutex_);
     assert(shareCount_ >= 0);
+    // If a different thread is waiting for the file lock, some other process
+    // has an exclusive lock.
+    if (sharedLockPending_) return false;
     if (shareCount_ == 0) {
         if (!fileLock_.try_lock_sharable()) return false;
     }
diff --git a/src/cosim/utility/concurrency.hpp b/src/cosim/utility/concurrency.hpp
index ba0d7a5..a52a2fb 100644
--- a/src/cosim/utility/concurrency.hpp
+++ b/src/cosim/utility/concurrency.hpp
@@ -172,6 +172,8 @@ private:
         boost::interprocess::file_lock fileLock_;
         std::mutex shareCountMutex_;
         int shareCount_ = 0; // -1 means exclusive lock
+        bool sharedLockPending_ = false; // a thread waits for a shared lock
+        std::condition_variable sharedLockPendingDone_;
     };
 
     // Holds the mutex and file lock associated with a particular file.
-- 
2.43.0


From 09fa6994ca1f3cfb1298bb856b494ca798fc9c2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:47 +0000
Subject: [PATCH 37/80] fix: release held locks properly on move assignment of
 file locks

---
 src/cosim/utility/concurrency.cpp | 11 +++++++++++
 src/cosim/utility/concurrency.hpp | 13 +++++++++++++
 2 files changed, 24 insertions(+)

diff --git a/src/cosim/utility/concurrency.cpp b/src/cosim/utility/concurrency.cpp
index a8f4935..b316155 100644
--- a/src/cosim/utility/concurrency.cpp
+++ b/src/cosim/utility/concurrency.cpp
@@ -44,6 +44,17 @@ file_lock::file_lock(
 }
 
 
+file_lock& file_lock::operator=(file_lock&& other) noexcept
+{
+    // The locks must be released in reverse order of acquisition, and before
+    // we let go of the mutex and file that they refer to.
+    fileLock_ = std::move(other.fileLock_);
+    mutexLock_ = std::move(other.mutexLock_);
+    fileMutex_ = std::move(other.fileMutex_);
+    return *this;
+}
+
+
 void file_lock::lock()
 {
     // NOTE: The reason we can't use std::lock() here is that we must make
diff --git a/src/cosim/utility/concurrency.hpp b/src/cosim/utility/concurrency.hpp
index a52a2fb..592bd23 100644
--- a/src/cosim/utility/concurrency.hpp
+++ b/src/cosim/utility/concurrency.hpp
@@ -91,6 +91,19 @@ public:
         const cosim::filesystem::path& path,
         file_lock_initial_state initialState = file_lock_initial_state::not_locked);
 
+    /// Move constructor.  Any lock held by `other` is transferred to `this`.
+    file_lock(file_lock&& other) noexcept = default;
+
+    /**
+     *  Move assignment operator.
+     *
+     *  Any lock held by `this` is released, and any lock held by `other` is
+     *  transferred to `this`.
+     */
+    file_lock& operator=(file_lock&& other) noexcept;
+
+    ~file_lock() noexcept = default;
+
     /**
      *  Acquires a lock on the file, blocking if necessary.
      *
-- 
2.43.0


From 1dc0bf28e958bfc5d16b31d7f3f285563a5d4ac9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:35 +0000
Subject: [PATCH 38/80] fix: clean up the subdirectory with an empty key in
 persistent file caches

---
 src/cosim/file_cache.cpp | 34 ++++++++++++++++++++++++++++------
 1 file changed, 28 insertions(+), 6 deletions(-)

diff --git a/src/cosim/file_cache.cpp b/src/cosim/file_cache.cpp
index 2f24da8..6d75bff 100644
--- a/src/cosim/file_cache.cpp
+++ b/src/cosim/file_cache.cpp
@@ -195,6 +195,27 @@ private:
 };
 
 
+namespace
+{
+
+// Subdirectories and their lock files have 5-character suffixes.  These are
+// not quite the same as file name extensions, because a key may be empty, and
+// then the suffix is the entire file name.
+
+bool has_suffix(const std::string& fileName, std::string_view suffix)
+{
+    return fileName.size() >= suffix.size() &&
+        fileName.compare(fileName.size() - suffix.size(), suffix.size(), suffix) == 0;
+}
+
+std::string replace_suffix(const std::string& fileName, std::string_view suffix)
+{
+    return fileName.substr(0, fileName.size() - suffix.size()) + std::string(suffix);
+}
+
+} // namespace
+
+
 class persistent_file_cache::impl
 {
 public:
@@ -247,12 +268,13 @@ public:
         for (auto it = cosim::filesystem::directory_iterator(root_);
              it != cosim::filesystem::directory_iterator();
              ++it) {
+            const auto fileName = it->path().filename().string();
             if (cosim::filesystem::is_directory(*it) &&
-                it->path().extension() == ".data") {
+                has_suffix(fileName, ".data")) {
 
                 // Remove non-locked subdirectories and their lock files
-                auto subdirLockFilePath = it->path();
-                subdirLockFilePath.replace_extension(".lock");
+                const auto subdirLockFilePath =
+                    it->path().parent_path() / replace_suffix(fileName, ".lock");
                 auto subdirLock = utility::file_lock(
                     subdirLockFilePath,
                     utility::file_lock_initial_state::not_locked);
@@ -262,7 +284,7 @@ public:
                 cosim::filesystem::remove_all(*it, ignoredError);
                 cosim::filesystem::remove(subdirLockFilePath);
             } else if (cosim::filesystem::is_regular_file(*it) &&
-                it->path().extension() == ".lock") {
+                has_suffix(fileName, ".lock")) {
 
                 // Remove lock files left over by get_directory_ro() for
                 // nonexistent subdirectories.
@@ -271,8 +293,8 @@ public:
                     utility::file_lock_initial_state::not_locked);
                 if (!subdirLock.try_lock()) continue;
 
-                auto subdirPath = it->path();
-                subdirPath.replace_extension(".data");
+                const auto subdirPath =
+                    it->path().parent_path() / replace_suffix(fileName, ".data");
                 if (!cosim::filesystem::exists(subdirPath)) {
                     std::error_code ignoredError;
                     cosim::filesystem::remove(*it, ignoredError);
-- 
2.43.0


From d514195514cc9dc8c301f5994f5b840d9b31ec9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:06 +0000
Subject: [PATCH 39/80] fix: don't block an entire persistent file cache while
 waiting for one of its subdirectories

---
 src/cosim/file_cache.cpp | 66 ++++++++++++++++++++++++++--------------
 1 file changed, 44 insertions(+), 22 deletions(-)

diff --git a/src/cosim/file_cache.cpp b/src/cosim/file_cache.cpp
index 6d75bff..f36e1b4 100644
--- a/src/cosim/file_cache.cpp
+++ b/src/cosim/file_cache.cpp
@@ -10,8 +10,11 @@
 #include "cosim/utility/concurrency.hpp"
 #include "cosim/utility/filesystem.hpp"
 
+#include <algorithm>
+#include <chrono>
 #include <stdexcept>
 #include <string>
+#include <thread>
 #include <unordered_map>
 
 
@@ -213,6 +216,23 @@ std::string replace_suffix(const std::string& fileName, std::string_view suffix)
     return fileName.substr(0, fileName.size() - suffix.size()) + std::string(suffix);
 }
 
+// Calls `getDirectory` until it returns a nonnull pointer.
+//
+// The reason we don't simply block on a subdirectory's lock is that it can
+// only be safely acquired while holding the root lock (so the lock file
+// doesn't get deleted in the process), and holding on to that while waiting
+// would keep everyone else from using the rest of the cache.
+template<typename F>
+auto wait_for_directory(F&& getDirectory)
+{
+    auto pause = std::chrono::milliseconds(1);
+    for (;;) {
+        if (auto directory = getDirectory()) return directory;
+        std::this_thread::sleep_for(pause);
+        pause = std::min(2 * pause, std::chrono::milliseconds(50));
+    }
+}
+
 } // namespace
 
 
@@ -227,36 +247,38 @@ public:
 
     std::unique_ptr<directory_rw> get_directory_rw(std::string_view key)
     {
-        auto rootLock = utility::file_lock(
-            root_lock_file_path(),
-            utility::file_lock_initial_state::locked);
+        return wait_for_directory([&]() -> std::unique_ptr<directory_rw> {
+            auto rootLock = utility::file_lock(
+                root_lock_file_path(),
+                utility::file_lock_initial_state::locked);
 
-        const auto path = subdir_path(key);
-        auto lock = utility::file_lock(
-            subdir_lock_file_path(key),
-            utility::file_lock_initial_state::locked);
+            const auto path = subdir_path(key);
+            auto lock = utility::file_lock(subdir_lock_file_path(key));
+            if (!lock.try_lock()) return nullptr;
 
-        cosim::filesystem::create_directories(path);
-        return std::make_unique<persistent_file_cache_directory>(path, std::move(lock));
+            cosim::filesystem::create_directories(path);
+            return std::make_unique<persistent_file_cache_directory>(path, std::move(lock));
+        });
     }
 
     std::unique_ptr<directory_ro> get_directory_ro(std::string_view key)
     {
-        auto rootLock = utility::file_lock(
-            root_lock_file_path(),
-            utility::file_lock_initial_state::locked_shared);
+        return wait_for_directory([&]() -> std::unique_ptr<directory_ro> {
+            auto rootLock = utility::file_lock(
+                root_lock_file_path(),
+                utility::file_lock_initial_state::locked_shared);
 
-        const auto path = subdir_path(key);
-        auto lock = utility::file_lock(
-            subdir_lock_file_path(key),
-            utility::file_lock_initial_state::locked_shared);
+            const auto path = subdir_path(key);
+            auto lock = utility::file_lock(subdir_lock_file_path(key));
+            if (!lock.try_lock_shared()) return nullptr;
 
-        if (cosim::filesystem::exists(path)) {
-            return std::make_unique<persistent_file_cache_directory>(path, std::move(lock));
-        } else {
-            throw std::logic_error(
-                "Invalid cache subdirectory key: " + std::string(key));
-        }
+            if (cosim::filesystem::exists(path)) {
+                return std::make_unique<persistent_file_cache_directory>(path, std::move(lock));
+            } else {
+                throw std::logic_error(
+                    "Invalid cache subdirectory key: " + std::string(key));
+            }
+        });
     }
 
     void cleanup()
-- 
2.43.0


From 27afd89823b5cbe4e7f7adaedaf1931c8f7337fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:31 +0000
Subject: [PATCH 40/80] fix: don't mistake lock files for deleted ones, and
 don't fail because of those

---
 src/cosim/utility/concurrency.cpp | 56 +++++++++++++++++++++++++++++--
 1 file changed, 53 insertions(+), 3 deletions(-)

diff --git a/src/cosim/utility/concurrency.cpp b/src/cosim/utility/concurrency.cpp
index b316155..ab6062c 100644
--- a/src/cosim/utility/concurrency.cpp
+++ b/src/cosim/utility/concurrency.cpp
@@ -18,6 +18,7 @@
 #else
 #    include <cerrno>
 #    include <fcntl.h>
+#    include <sys/stat.h>
 #endif
 
 
@@ -288,12 +289,60 @@ file_lock::file_mutex::file_mutex(const cosim::filesystem::path& path)
 { }
 
 
+namespace
+{
+// Identifies an existing file.
+//
+// On POSIX systems we don't use the path for this, because an open lock file
+// may have been deleted, and a different one with the same path may have been
+// created after that.
+class file_id
+{
+public:
+    explicit file_id(const cosim::filesystem::path& path)
+    {
+#ifdef _WIN32
+        path_ = cosim::filesystem::canonical(path);
+#else
+        struct stat fileStatus;
+        if (stat(path.c_str(), &fileStatus) != 0) {
+            throw std::system_error(
+                errno,
+                std::system_category(),
+                "Failed to access lock file '" + path.string() + "'");
+        }
+        device_ = fileStatus.st_dev;
+        inode_ = fileStatus.st_ino;
+#endif
+    }
+
+    bool operator==(const file_id& other) const noexcept
+    {
+#ifdef _WIN32
+        std::error_code ignoredError;
+        return cosim::filesystem::equivalent(path_, other.path_, ignoredError);
+#else
+        return device_ == other.device_ && inode_ == other.inode_;
+#endif
+    }
+
+private:
+#ifdef _WIN32
+    cosim::filesystem::path path_;
+#else
+    dev_t device_;
+    ino_t inode_;
+#endif
+};
+} // namespace
+
+
 std::shared_ptr<file_lock::file_mutex> file_lock::get_file_mutex(
     const cosim::filesystem::path& path)
 {
     struct file_mutex_cache_entry
     {
-        cosim::filesystem::path path;
+        file_id id;
         std::weak_ptr<file_mutex> fileMutex;
     };
     static std::vector<file_mutex_cache_entry> fileMutexCache;
@@ -306,9 +355,10 @@ std::shared_ptr<file_lock::file_mutex> file_lock::get_file_mutex(
     // (cleaning up any expired elements along the way).
     std::lock_guard<decltype(cacheMutex)> guard(cacheMutex);
     if (cosim::filesystem::exists(path)) {
+        const auto id = file_id(path);
         for (auto it = fileMutexCache.begin(); it != fileMutexCache.end();) {
             if (auto fm = it->fileMutex.lock()) {
-                if (cosim::filesystem::equivalent(path, it->path)) {
+                if (id == it->id) {
                     assert(!fileMutex);
                     fileMutex = std::move(fm);
                 }
@@ -322,7 +372,7 @@ std::shared_ptr<file_lock::file_mutex> file_lock::get_file_mutex(
     // If no element corresponding to the given path was found, create one.
     if (!fileMutex) {
         fileMutex = std::make_shared<file_mutex>(path);
-        fileMutexCache.push_back({cosim::filesystem::canonical(path), fileMutex});
+        fileMutexCache.push_back({file_id(path), fileMutex});
     }
 
     return fileMutex;
-- 
2.43.0


From decff3824b8bcfab2ad710d3e77c7c7562e0e420 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:17 +0000
Subject: [PATCH 41/80] fix: don't lose file locks when another thread lets go
 of the same file

---
 src/cosim/utility/concurrency.cpp | 49 ++++++++++++++++++++++++++-----
 src/cosim/utility/concurrency.hpp |  7 ++++-
 2 files changed, 48 insertions(+), 8 deletions(-)

diff --git a/src/cosim/utility/concurrency.cpp b/src/cosim/utility/concurrency.cpp
index ab6062c..ccf2ab2 100644
--- a/src/cosim/utility/concurrency.cpp
+++ b/src/cosim/utility/concurrency.cpp
@@ -35,7 +35,7 @@ namespace utility
 file_lock::file_lock(
     const cosim::filesystem::path& path,
     file_lock_initial_state initialState)
-    : fileMutex_(get_file_mutex(path))
+    : file_lock(get_file_mutex(path))
 {
     if (initialState == file_lock_initial_state::locked) {
         lock();
@@ -45,17 +45,53 @@ file_lock::file_lock(
 }
 
 
+file_lock::file_lock(std::shared_ptr<file_mutex> fileMutex) noexcept
+    : fileMutex_(std::move(fileMutex))
+{ }
+
+
 file_lock& file_lock::operator=(file_lock&& other) noexcept
 {
-    // The locks must be released in reverse order of acquisition, and before
-    // we let go of the mutex and file that they refer to.
-    fileLock_ = std::move(other.fileLock_);
-    mutexLock_ = std::move(other.mutexLock_);
+    release();
     fileMutex_ = std::move(other.fileMutex_);
+    mutexLock_ = std::move(other.mutexLock_);
+    fileLock_ = std::move(other.fileLock_);
     return *this;
 }
 
 
+file_lock::~file_lock() noexcept
+{
+    release();
+}
+
+
+namespace
+{
+// Protects the file mutex cache in file_lock::get_file_mutex().
+std::mutex& file_mutex_cache_mutex()
+{
+    static std::mutex mutex;
+    return mutex;
+}
+} // namespace
+
+
+void file_lock::release() noexcept
+{
+    // The locks must be released in reverse order of acquisition, and before
+    // we let go of the mutex and file that they refer to.
+    fileLock_ = {};
+    mutexLock_ = {};
+
+    // On POSIX systems, closing a file makes the process lose all of its locks
+    // on it.  Therefore, this must not happen after `get_file_mutex()` has
+    // found that the `file_mutex` has expired and created a new one.
+    std::lock_guard<std::mutex> guard(file_mutex_cache_mutex());
+    fileMutex_.reset();
+}
+
+
 void file_lock::lock()
 {
     // NOTE: The reason we can't use std::lock() here is that we must make
@@ -346,14 +382,13 @@ std::shared_ptr<file_lock::file_mutex> file_lock::get_file_mutex(
         std::weak_ptr<file_mutex> fileMutex;
     };
     static std::vector<file_mutex_cache_entry> fileMutexCache;
-    static std::mutex cacheMutex;
     std::shared_ptr<file_mutex> fileMutex;
 
     // If the file already exists, we need to check whether it is already
     // associated with a mutex.  We do so by performing a linear search for
     // an element corresponding to the given path in `fileMutexes`
     // (cleaning up any expired elements along the way).
-    std::lock_guard<decltype(cacheMutex)> guard(cacheMutex);
+    std::lock_guard<std::mutex> guard(file_mutex_cache_mutex());
     if (cosim::filesystem::exists(path)) {
         const auto id = file_id(path);
         for (auto it = fileMutexCache.begin(); it != fileMutexCache.end();) {
diff --git a/src/cosim/utility/concurrency.hpp b/src/cosim/utility/concurrency.hpp
index 592bd23..894d560 100644
--- a/src/cosim/utility/concurrency.hpp
+++ b/src/cosim/utility/concurrency.hpp
@@ -102,7 +102,7 @@ public:
      */
     file_lock& operator=(file_lock&& other) noexcept;
 
-    ~file_lock() noexcept = default;
+    ~file_lock() noexcept;
 
     /**
      *  Acquires a lock on the file, blocking if necessary.
@@ -197,6 +197,11 @@ private:
         boost_wrapper file;
     };
 
+    explicit file_lock(std::shared_ptr<file_mutex> fileMutex) noexcept;
+
+    // Releases any lock that we hold, as well as the mutex and file lock.
+    void release() noexcept;
+
     // Returns the mutex and file lock associated with the file at `path`.
     static std::shared_ptr<file_mutex> get_file_mutex(
         const cosim::filesystem::path& path);
-- 
2.43.0


From 39ab87b3c05039e542c2466bda04553669fdad37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:36 +0000
Subject: [PATCH 42/80] fix: wake all threads which wait for a thread pool to
 finish

---
 src/cosim/utility/thread_pool.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cosim/utility/thread_pool.hpp b/src/cosim/utility/thread_pool.hpp
index 6765b03..2e6b9fd 100644
--- a/src/cosim/utility/thread_pool.hpp
+++ b/src/cosim/utility/thread_pool.hpp
@@ -54,7 +54,7 @@ private:
                 lck.lock();
                 pending_tasks_--;
                 lck.unlock();
-                cv_finished_.notify_one();
+                cv_finished_.notify_all();
             } else if (done_)
                 break;
         }
-- 
2.43.0


From 7791513a7cda28f139576f89835cfbbda78d790f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:00 +0000
Subject: [PATCH 43/80] fix: don't terminate the program when a thread pool
 can't start all its threads

---
 src/cosim/utility/thread_pool.hpp | 23 ++++++++++++++---------
 1 file changed, 14 insertions(+), 9 deletions(-)

diff --git a/src/cosim/utility/thread_pool.hpp b/src/cosim/utility/thread_pool.hpp
index 2e6b9fd..b38fbc1 100644
--- a/src/cosim/utility/thread_pool.hpp
+++ b/src/cosim/utility/thread_pool.hpp
@@ -60,6 +60,18 @@ private:
         }
     }
 
+    void stop_workers() noexcept
+    {
+        std::unique_lock<std::mutex> lck(m_);
+        done_ = true;
+        lck.unlock();
+        cv_worker_.notify_all();
+
+        for (auto& thread : threads_) {
+            thread.join();
+        }
+    }
+
 public:
     explicit thread_pool(unsigned int thread_count)
         : done_(false)
@@ -70,7 +82,7 @@ public:
                 threads_.emplace_back(&thread_pool::worker_thread, this);
             }
         } catch (...) {
-            done_ = true;
+            stop_workers();
             throw;
         }
     }
@@ -103,14 +115,7 @@ public:
 
     ~thread_pool() noexcept
     {
-        std::unique_lock<std::mutex> lck(m_);
-        done_ = true;
-        lck.unlock();
-        cv_worker_.notify_all();
-
-        for (auto& thread : threads_) {
-            thread.join();
-        }
+        stop_workers();
     }
 };
 
-- 
2.43.0


From 8df7e4f5216fc059f01b599bb65810ddddec7456 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:51 +0000
Subject: [PATCH 44/80] fix: let variables be overridden safely from other
 threads

---
 src/cosim/slave_simulator.cpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/cosim/slave_simulator.cpp b/src/cosim/slave_simulator.cpp
index c9646ed..9225765 100644
--- a/src/cosim/slave_simulator.cpp
+++ b/src/cosim/slave_simulator.cpp
@@ -684,7 +684,6 @@ std::string slave_simulator::name() const
 
 cosim::model_description slave_simulator::model_description() const
 {
-    COSIM_PRECONDITION(state_ != slave_state::error);
     return pimpl_->model_description();
 }
 
-- 
2.43.0


From 0f816975102dfb1e7e5e3717cf592663c0572380 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:00 +0000
Subject: [PATCH 45/80] fix: don't expose the time series observer without step
 numbers at initialisation

---
 src/cosim/observer/time_series_observer.cpp | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/src/cosim/observer/time_series_observer.cpp b/src/cosim/observer/time_series_observer.cpp
index 0114765..706705c 100644
--- a/src/cosim/observer/time_series_observer.cpp
+++ b/src/cosim/observer/time_series_observer.cpp
@@ -80,18 +80,21 @@ public:
 
     void initialize(step_number firstStep, time_point startTime)
     {
-        {
-            // `firstStep` may differ from the step number assumed in the
-            // constructor if the observer was added during the simulation.
-            std::lock_guard<std::mutex> lock(lock_);
-            timeSamples_.clear();
-        }
-        observe(firstStep, startTime);
+        std::lock_guard<std::mutex> lock(lock_);
+        // `firstStep` may differ from the step number assumed in the
+        // constructor if the observer was added during the simulation.
+        timeSamples_.clear();
+        add_samples(firstStep, startTime);
     }
 
     void observe(step_number timeStep, time_point currentTime)
     {
         std::lock_guard<std::mutex> lock(lock_);
+        add_samples(timeStep, currentTime);
+    }
+
+    void add_samples(step_number timeStep, time_point currentTime)
+    {
         for (auto& [idx, samples] : realSamples_) {
             samples[timeStep] = observable_->get_real(idx);
             adjustIfFull(samples, bufSize_);
-- 
2.43.0


From 4608185bb45c6ecbdfa37fe064e1b7195b1aafd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:00 +0000
Subject: [PATCH 46/80] fix: accept relative base URIs when looking up models
 by absolute URIs

---
 src/cosim/orchestration.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/cosim/orchestration.cpp b/src/cosim/orchestration.cpp
index c5afea9..07ab053 100644
--- a/src/cosim/orchestration.cpp
+++ b/src/cosim/orchestration.cpp
@@ -26,7 +26,10 @@ std::shared_ptr<model> model_uri_sub_resolver::lookup_model(
     const uri& baseUri,
     const uri& modelUriReference)
 {
-    return lookup_model(resolve_reference(baseUri, modelUriReference));
+    // An absolute reference does not depend on the base URI, which may then be
+    // relative (but still needs normalisation).
+    const auto& base = modelUriReference.scheme().has_value() ? modelUriReference : baseUri;
+    return lookup_model(resolve_reference(base, modelUriReference));
 }
 
 
-- 
2.43.0


From 645cd5c316718ab15283097d34c79032073155a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:08:17 +0000
Subject: [PATCH 47/80] fix: accept namespace prefixes in OSP system structure
 and model description files

---
 src/cosim/osp_config_parser.cpp | 57 ++++++++++++++++++---------------
 1 file changed, 32 insertions(+), 25 deletions(-)

diff --git a/src/cosim/osp_config_parser.cpp b/src/cosim/osp_config_parser.cpp
index b909f96..3b4ca96 100644
--- a/src/cosim/osp_config_parser.cpp
+++ b/src/cosim/osp_config_parser.cpp
@@ -244,6 +244,13 @@ private:
 namespace
 {
 
+// Returns all descendants of an element with the given local name, regardless
+// of which namespace prefix (if any) is used in the document.
+xercesc::DOMNodeList* find_elements(xercesc::DOMElement* el, const char* name)
+{
+    return el->getElementsByTagNameNS(tc("*").get(), tc(name).get());
+}
+
 template<typename T>
 T attribute_or(xercesc::DOMElement* el, const char* attributeName, T defaultValue)
 {
@@ -306,7 +313,7 @@ osp_config_parser::osp_config_parser(
 
     const auto rootElement = doc->getDocumentElement();
 
-    const auto simulators = static_cast<xercesc::DOMElement*>(rootElement->getElementsByTagName(tc("Simulators").get())->item(0));
+    const auto simulators = static_cast<xercesc::DOMElement*>(find_elements(rootElement, "Simulators")->item(0));
     for (auto element = simulators->getFirstElementChild(); element != nullptr; element = element->getNextElementSibling()) {
         std::string name = tc(element->getAttribute(tc("name").get())).get();
         std::string source = tc(element->getAttribute(tc("source").get())).get();
@@ -318,11 +325,11 @@ osp_config_parser::osp_config_parser(
         }
 
         std::vector<InitialValue> initialValues;
-        const auto initValsElement = static_cast<xercesc::DOMElement*>(element->getElementsByTagName(tc("InitialValues").get())->item(0));
+        const auto initValsElement = static_cast<xercesc::DOMElement*>(find_elements(element, "InitialValues")->item(0));
         if (initValsElement) {
             for (auto initValElement = initValsElement->getFirstElementChild(); initValElement != nullptr; initValElement = initValElement->getNextElementSibling()) {
                 std::string varName = tc(initValElement->getAttribute(tc("variable").get())).get();
-                variable_type varType = parse_variable_type(std::string(tc(initValElement->getFirstElementChild()->getNodeName()).get()));
+                variable_type varType = parse_variable_type(std::string(tc(initValElement->getFirstElementChild()->getLocalName()).get()));
                 std::string varValue = tc(initValElement->getFirstElementChild()->getAttribute(tc("value").get())).get();
                 switch (varType) {
                     case variable_type::real:
@@ -346,12 +353,12 @@ osp_config_parser::osp_config_parser(
         simulators_.push_back({name, source, stepSize, initialValues});
     }
 
-    const auto functionsElement = static_cast<xercesc::DOMElement*>(rootElement->getElementsByTagName(tc("Functions").get())->item(0));
+    const auto functionsElement = static_cast<xercesc::DOMElement*>(find_elements(rootElement, "Functions")->item(0));
     if (functionsElement != nullptr) {
         for (auto functionElement = functionsElement->getFirstElementChild(); functionElement != nullptr; functionElement = functionElement->getNextElementSibling()) {
 
 
-            const auto functionNodeName = std::string(tc(functionElement->getNodeName()).get());
+            const auto functionNodeName = std::string(tc(functionElement->getLocalName()).get());
             const auto functionName = std::string(tc(functionElement->getAttribute(tc("name").get())).get());
             if ("LinearTransformation" == functionNodeName) {
                 LinearTransformationFunction function;
@@ -419,33 +426,33 @@ osp_config_parser::osp_config_parser(
         }
     }
 
-    auto descNodes = rootElement->getElementsByTagName(tc("Description").get());
+    auto descNodes = find_elements(rootElement, "Description");
     if (descNodes->getLength() > 0) {
         simulationInformation_.description = tc(descNodes->item(0)->getTextContent()).get();
     }
 
-    auto ssNodes = rootElement->getElementsByTagName(tc("BaseStepSize").get());
+    auto ssNodes = find_elements(rootElement, "BaseStepSize");
     if (ssNodes->getLength() > 0) {
         simulationInformation_.stepSize = boost::lexical_cast<double>(tc(ssNodes->item(0)->getTextContent()));
     }
 
-    auto stNodes = rootElement->getElementsByTagName(tc("StartTime").get());
+    auto stNodes = find_elements(rootElement, "StartTime");
     if (stNodes->getLength() > 0) {
         simulationInformation_.startTime = boost::lexical_cast<double>(tc(stNodes->item(0)->getTextContent()).get());
     }
 
-    auto etNodes = rootElement->getElementsByTagName(tc("EndTime").get());
+    auto etNodes = find_elements(rootElement, "EndTime");
     if (etNodes->getLength() > 0) {
         simulationInformation_.endTime = boost::lexical_cast<double>(tc(etNodes->item(0)->getTextContent()).get());
     }
 
-    auto connectionsElement = static_cast<xercesc::DOMElement*>(rootElement->getElementsByTagName(tc("Connections").get())->item(0));
+    auto connectionsElement = static_cast<xercesc::DOMElement*>(find_elements(rootElement, "Connections")->item(0));
     if (connectionsElement) {
-        auto variableConnectionsElement = connectionsElement->getElementsByTagName(tc("VariableConnection").get());
+        auto variableConnectionsElement = find_elements(connectionsElement, "VariableConnection");
         for (size_t i = 0; i < variableConnectionsElement->getLength(); i++) {
             auto connectionElement = static_cast<xercesc::DOMElement*>(variableConnectionsElement->item(i));
-            auto a = static_cast<xercesc::DOMElement*>(connectionElement->getElementsByTagName(tc("Variable").get())->item(0));
-            auto b = static_cast<xercesc::DOMElement*>(connectionElement->getElementsByTagName(tc("Variable").get())->item(1));
+            auto a = static_cast<xercesc::DOMElement*>(find_elements(connectionElement, "Variable")->item(0));
+            auto b = static_cast<xercesc::DOMElement*>(find_elements(connectionElement, "Variable")->item(1));
 
             std::string simulatorA = tc(a->getAttribute(tc("simulator").get())).get();
             std::string nameA = tc(a->getAttribute(tc("name").get())).get();
@@ -458,11 +465,11 @@ osp_config_parser::osp_config_parser(
             variableConnections_.push_back({veA, veB});
         }
 
-        auto signalConnectionsElement = connectionsElement->getElementsByTagName(tc("SignalConnection").get());
+        auto signalConnectionsElement = find_elements(connectionsElement, "SignalConnection");
         for (size_t i = 0; i < signalConnectionsElement->getLength(); i++) {
             auto connectionElement = static_cast<xercesc::DOMElement*>(signalConnectionsElement->item(i));
-            auto signalElement = static_cast<xercesc::DOMElement*>(connectionElement->getElementsByTagName(tc("Signal").get())->item(0));
-            auto variableElement = static_cast<xercesc::DOMElement*>(connectionElement->getElementsByTagName(tc("Variable").get())->item(0));
+            auto signalElement = static_cast<xercesc::DOMElement*>(find_elements(connectionElement, "Signal")->item(0));
+            auto variableElement = static_cast<xercesc::DOMElement*>(find_elements(connectionElement, "Variable")->item(0));
 
             std::string function = tc(signalElement->getAttribute(tc("function").get())).get();
             std::string sigName = tc(signalElement->getAttribute(tc("name").get())).get();
@@ -475,11 +482,11 @@ osp_config_parser::osp_config_parser(
             signalConnections_.push_back({signal, variable});
         }
 
-        auto variableGroupConnectionsElement = connectionsElement->getElementsByTagName(tc("VariableGroupConnection").get());
+        auto variableGroupConnectionsElement = find_elements(connectionsElement, "VariableGroupConnection");
         for (size_t i = 0; i < variableGroupConnectionsElement->getLength(); i++) {
             auto connectionElement = static_cast<xercesc::DOMElement*>(variableGroupConnectionsElement->item(i));
-            auto a = static_cast<xercesc::DOMElement*>(connectionElement->getElementsByTagName(tc("VariableGroup").get())->item(0));
-            auto b = static_cast<xercesc::DOMElement*>(connectionElement->getElementsByTagName(tc("VariableGroup").get())->item(1));
+            auto a = static_cast<xercesc::DOMElement*>(find_elements(connectionElement, "VariableGroup")->item(0));
+            auto b = static_cast<xercesc::DOMElement*>(find_elements(connectionElement, "VariableGroup")->item(1));
 
             std::string simulatorA = tc(a->getAttribute(tc("simulator").get())).get();
             std::string nameA = tc(a->getAttribute(tc("name").get())).get();
@@ -492,11 +499,11 @@ osp_config_parser::osp_config_parser(
             variableGroupConnections_.push_back({veA, veB});
         }
 
-        auto signalGroupConnectionsElement = connectionsElement->getElementsByTagName(tc("SignalGroupConnection").get());
+        auto signalGroupConnectionsElement = find_elements(connectionsElement, "SignalGroupConnection");
         for (size_t i = 0; i < signalGroupConnectionsElement->getLength(); i++) {
             auto connectionElement = static_cast<xercesc::DOMElement*>(signalGroupConnectionsElement->item(i));
-            auto signalElement = static_cast<xercesc::DOMElement*>(connectionElement->getElementsByTagName(tc("SignalGroup").get())->item(0));
-            auto variableElement = static_cast<xercesc::DOMElement*>(connectionElement->getElementsByTagName(tc("VariableGroup").get())->item(0));
+            auto signalElement = static_cast<xercesc::DOMElement*>(find_elements(connectionElement, "SignalGroup")->item(0));
+            auto variableElement = static_cast<xercesc::DOMElement*>(find_elements(connectionElement, "VariableGroup")->item(0));
 
             std::string function = tc(signalElement->getAttribute(tc("function").get())).get();
             std::string sigName = tc(signalElement->getAttribute(tc("name").get())).get();
@@ -629,7 +636,7 @@ struct extended_model_description
 
         const auto rootElement = doc->getDocumentElement();
 
-        const auto variableGroupsElement = static_cast<xercesc::DOMElement*>(rootElement->getElementsByTagName(tc("VariableGroups").get())->item(0));
+        const auto variableGroupsElement = static_cast<xercesc::DOMElement*>(find_elements(rootElement, "VariableGroups")->item(0));
 
         for (auto variableGroupElement = variableGroupsElement->getFirstElementChild(); variableGroupElement != nullptr; variableGroupElement = variableGroupElement->getNextElementSibling()) {
             variable_group_description vgd = create_variable_group_description(variableGroupElement);
@@ -642,10 +649,10 @@ struct extended_model_description
         variable_group_description variableGroupDescription;
 
         variableGroupDescription.name = tc(variableGroupElement->getAttribute(tc("name").get())).get();
-        variableGroupDescription.type = tc(variableGroupElement->getTagName()).get();
+        variableGroupDescription.type = tc(variableGroupElement->getLocalName()).get();
 
         for (auto variableGroupChildElement = variableGroupElement->getFirstElementChild(); variableGroupChildElement != nullptr; variableGroupChildElement = variableGroupChildElement->getNextElementSibling()) {
-            std::string tagName(tc(variableGroupChildElement->getTagName()).get());
+            std::string tagName(tc(variableGroupChildElement->getLocalName()).get());
             if (tagName == "Variable") {
                 std::string variableName = tc(variableGroupChildElement->getAttribute(tc("ref").get())).get();
                 variableGroupDescription.variables.push_back(std::move(variableName));
-- 
2.43.0


From 25aa16354e572778c181f9ffcdb4a7d722186b71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:00 +0000
Subject: [PATCH 48/80] fix: don't corrupt non-ASCII text and file names in OSP
 configuration files

---
 src/cosim/osp_config_parser.cpp | 40 +++++++++++++++++++++++++++++----
 1 file changed, 36 insertions(+), 4 deletions(-)

diff --git a/src/cosim/osp_config_parser.cpp b/src/cosim/osp_config_parser.cpp
index 3b4ca96..e45f66b 100644
--- a/src/cosim/osp_config_parser.cpp
+++ b/src/cosim/osp_config_parser.cpp
@@ -17,8 +17,11 @@
 #include <xercesc/framework/MemBufInputSource.hpp>
 #include <xercesc/framework/Wrapper4InputSource.hpp>
 #include <xercesc/util/PlatformUtils.hpp>
+#include <xercesc/util/TransService.hpp>
 #include <xercesc/util/XMLString.hpp>
 
+#include <cstring>
+#include <fstream>
 #include <ios>
 #include <memory>
 #include <sstream>
@@ -36,19 +39,48 @@ namespace cosim
 
 namespace
 {
+// Converts UTF-8 to Xerces' internal encoding.
 std::shared_ptr<XMLCh> tc(const char* str)
 {
+    xercesc::TranscodeFromStr transcoder(
+        reinterpret_cast<const XMLByte*>(str), std::strlen(str), "UTF-8");
     return std::shared_ptr<XMLCh>(
-        xercesc::XMLString::transcode(str),
+        transcoder.adopt(),
         [](XMLCh* ptr) { xercesc::XMLString::release(&ptr); });
 }
+
+// Converts Xerces' internal encoding to UTF-8.
 std::shared_ptr<char> tc(const XMLCh* str)
 {
+    if (str == nullptr) str = xercesc::XMLUni::fgZeroLenString;
+    xercesc::TranscodeToStr transcoder(str, "UTF-8");
     return std::shared_ptr<char>(
-        xercesc::XMLString::transcode(str),
+        reinterpret_cast<char*>(transcoder.adopt()),
         [](char* ptr) { xercesc::XMLString::release(&ptr); });
 }
 
+// Parses an XML file.  Returns null if the file is not well-formed XML.
+xercesc::DOMDocument* parse_file(xercesc::DOMLSParser* parser, const cosim::filesystem::path& path)
+{
+    // We read the file ourselves, because Xerces can't open files whose
+    // names can't be represented in the local code page.
+    std::ifstream file(path.string(), std::ios_base::binary);
+    std::ostringstream contents;
+    contents << file.rdbuf();
+    if (!file) {
+        std::ostringstream oss;
+        oss << "Failed to read " << path.string();
+        throw std::runtime_error(oss.str());
+    }
+    const auto contentsStr = contents.str();
+    xercesc::MemBufInputSource source(
+        reinterpret_cast<const XMLByte*>(contentsStr.data()),
+        contentsStr.size(),
+        tc(std::string(path_to_file_uri(path).view()).c_str()).get());
+    const xercesc::Wrapper4InputSource wrapper(&source, false);
+    return parser->parse(&wrapper);
+}
+
 class error_handler : public xercesc::DOMErrorHandler
 {
 public:
@@ -302,7 +334,7 @@ osp_config_parser::osp_config_parser(
     parser->getDomConfig()->setParameter(xercesc::XMLUni::fgXercesSchemaFullChecking, true);
     parser->getDomConfig()->setParameter(xercesc::XMLUni::fgXercesLoadSchema, false);
 
-    const auto doc = parser->parseURI(configPath.string().c_str());
+    const auto doc = parse_file(parser, configPath);
 
     if (errorHandler.failed()) {
         std::ostringstream oss;
@@ -625,7 +657,7 @@ struct extended_model_description
         const auto domImpl = xercesc::DOMImplementationRegistry::getDOMImplementation(tc("LS").get());
         const auto parser = static_cast<xercesc::DOMImplementationLS*>(domImpl)->createLSParser(xercesc::DOMImplementationLS::MODE_SYNCHRONOUS, tc("http://www.w3.org/2001/XMLSchema").get());
 
-        const auto doc = parser->parseURI(ospModelDescription.string().c_str());
+        const auto doc = parse_file(parser, ospModelDescription);
 
         if (doc == nullptr) {
             std::ostringstream oss;
-- 
2.43.0


From d7860be4e747332afe310b82b37c7a627dff7d25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:28 +0000
Subject: [PATCH 49/80] fix: reject incomplete OSP model description files
 instead of crashing or ignoring the rest

---
 src/cosim/osp_config_parser.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/cosim/osp_config_parser.cpp b/src/cosim/osp_config_parser.cpp
index e45f66b..8108290 100644
--- a/src/cosim/osp_config_parser.cpp
+++ b/src/cosim/osp_config_parser.cpp
@@ -657,9 +657,12 @@ struct extended_model_description
         const auto domImpl = xercesc::DOMImplementationRegistry::getDOMImplementation(tc("LS").get());
         const auto parser = static_cast<xercesc::DOMImplementationLS*>(domImpl)->createLSParser(xercesc::DOMImplementationLS::MODE_SYNCHRONOUS, tc("http://www.w3.org/2001/XMLSchema").get());
 
+        error_handler errorHandler;
+        parser->getDomConfig()->setParameter(xercesc::XMLUni::fgDOMErrorHandler, &errorHandler);
+
         const auto doc = parse_file(parser, ospModelDescription);
 
-        if (doc == nullptr) {
+        if (errorHandler.failed() || doc == nullptr || doc->getDocumentElement() == nullptr) {
             std::ostringstream oss;
             oss << "Validation of " << ospModelDescription.string() << " failed.";
             BOOST_LOG_SEV(log::logger(), log::error) << oss.str();
@@ -669,6 +672,7 @@ struct extended_model_description
         const auto rootElement = doc->getDocumentElement();
 
         const auto variableGroupsElement = static_cast<xercesc::DOMElement*>(find_elements(rootElement, "VariableGroups")->item(0));
+        if (variableGroupsElement == nullptr) return;
 
         for (auto variableGroupElement = variableGroupsElement->getFirstElementChild(); variableGroupElement != nullptr; variableGroupElement = variableGroupElement->getNextElementSibling()) {
             variable_group_description vgd = create_variable_group_description(variableGroupElement);
-- 
2.43.0


From 3013def407f75ad606aa70f3a3106ecedac3f882 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:39 +0000
Subject: [PATCH 50/80] fix: reject invalid and unrepresentable times in OSP
 system structure files

---
 src/cosim/osp_config_parser.cpp | 27 ++++++++++++++++++++++-----
 1 file changed, 22 insertions(+), 5 deletions(-)

diff --git a/src/cosim/osp_config_parser.cpp b/src/cosim/osp_config_parser.cpp
index 8108290..9e735fe 100644
--- a/src/cosim/osp_config_parser.cpp
+++ b/src/cosim/osp_config_parser.cpp
@@ -20,6 +20,8 @@
 #include <xercesc/util/TransService.hpp>
 #include <xercesc/util/XMLString.hpp>
 
+#include <chrono>
+#include <cmath>
 #include <cstring>
 #include <fstream>
 #include <ios>
@@ -949,6 +951,20 @@ void connect_vector_sum_functions(
     }
 }
 
+// Converts a number of seconds to a `duration`, after verifying that it is
+// within the range of that type.
+duration checked_to_duration(double seconds, const char* what)
+{
+    const auto limit = std::chrono::duration<double>(duration::max()).count();
+    if (!(std::abs(seconds) < limit)) {
+        std::ostringstream oss;
+        oss << "Configured " << what << " [" << seconds << "] is invalid or out of range";
+        BOOST_LOG_SEV(log::logger(), log::error) << oss.str();
+        throw std::invalid_argument(oss.str());
+    }
+    return to_duration(seconds);
+}
+
 cosim::filesystem::path file_query_uri_to_path(
     const cosim::uri& baseParentUri,
     const cosim::uri& queryUri)
@@ -978,7 +994,8 @@ osp_config load_osp_config(
     const auto parser = osp_config_parser(configFile);
     const auto& simInfo = parser.get_simulation_information();
 
-    if (simInfo.stepSize <= 0.0) {
+    const auto stepSize = checked_to_duration(simInfo.stepSize, "base step size");
+    if (stepSize <= duration::zero()) {
         std::ostringstream oss;
         oss << "Configured base step size [" << simInfo.stepSize << "] must be nonzero and positive";
         BOOST_LOG_SEV(log::logger(), log::error) << oss.str();
@@ -993,10 +1010,10 @@ osp_config load_osp_config(
     }
 
     osp_config config;
-    config.start_time = to_time_point(simInfo.startTime);
-    config.step_size = to_duration(simInfo.stepSize);
+    config.start_time = time_point(checked_to_duration(simInfo.startTime, "start time"));
+    config.step_size = stepSize;
     if (simInfo.endTime.has_value()) {
-        config.end_time = to_time_point(simInfo.endTime.value());
+        config.end_time = time_point(checked_to_duration(simInfo.endTime.value(), "end time"));
     }
 
     auto simulators = parser.get_elements();
@@ -1007,7 +1024,7 @@ osp_config load_osp_config(
         config.system_structure.add_entity(
             simulator.name,
             model,
-            simulator.stepSize ? to_duration(*simulator.stepSize) : duration::zero());
+            simulator.stepSize ? checked_to_duration(*simulator.stepSize, "simulator step size") : duration::zero());
 
         for (const auto& p : simulator.initialValues) {
             add_variable_value(
-- 
2.43.0


From 0b051989919d1a08af03a712cc67521634a60253 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:08 +0000
Subject: [PATCH 51/80] fix: realise all connections of functions in OSP system
 structures, or report those that can't be

---
 src/cosim/osp_config_parser.cpp | 213 +++++++++++++++++++++-----------
 1 file changed, 142 insertions(+), 71 deletions(-)

diff --git a/src/cosim/osp_config_parser.cpp b/src/cosim/osp_config_parser.cpp
index 9e735fe..45f7ad6 100644
--- a/src/cosim/osp_config_parser.cpp
+++ b/src/cosim/osp_config_parser.cpp
@@ -25,6 +25,7 @@
 #include <cstring>
 #include <fstream>
 #include <ios>
+#include <map>
 #include <memory>
 #include <sstream>
 #include <stdexcept>
@@ -404,7 +405,9 @@ osp_config_parser::osp_config_parser(
                 function.in = {"in", variable_type::real, variable_causality::input};
                 function.out = {"out", variable_type::real, variable_causality::output};
 
-                linearTransformationFunctions_[functionName] = function;
+                if (!linearTransformationFunctions_.emplace(functionName, function).second) {
+                    throw std::runtime_error("Duplicate function name: " + functionName);
+                }
 
             } else if ("Sum" == functionNodeName) {
                 SumFunction function;
@@ -419,7 +422,9 @@ osp_config_parser::osp_config_parser(
                 }
                 function.out = {"out", variable_type::real, variable_causality::output};
 
-                sumFunctions_[functionName] = function;
+                if (!sumFunctions_.emplace(functionName, function).second) {
+                    throw std::runtime_error("Duplicate function name: " + functionName);
+                }
 
             } else if ("VectorSum" == functionNodeName) {
                 VectorSumFunction function;
@@ -450,7 +455,9 @@ osp_config_parser::osp_config_parser(
                 }
                 function.outGroup = sg;
 
-                vectorSumFunctions_[functionName] = function;
+                if (!vectorSumFunctions_.emplace(functionName, function).second) {
+                    throw std::runtime_error("Duplicate function name: " + functionName);
+                }
 
             } else {
                 std::ostringstream oss;
@@ -705,28 +712,6 @@ struct extended_model_description
     std::unordered_map<std::string, variable_group_description> variableGroups;
 };
 
-namespace
-{
-
-osp_config_parser::SignalConnection find_signal_connection(
-    const std::vector<osp_config_parser::SignalConnection>& signalConnections,
-    const std::string& functionName,
-    const std::string& signalName)
-{
-    auto it = std::find_if(
-        signalConnections.begin(),
-        signalConnections.end(),
-        [&](const auto& conn) { return functionName == conn.signal.function && signalName == conn.signal.name; });
-    if (it == signalConnections.end()) {
-        std::ostringstream oss;
-        oss << "Missing expected connection to " << functionName << ":" << signalName;
-        throw std::out_of_range(oss.str());
-    }
-    return *it;
-}
-
-} // namespace
-
 void connect_variables(
     const std::vector<osp_config_parser::VariableConnection>& variableConnections,
     system_structure& systemStructure)
@@ -858,10 +843,25 @@ void connect_variable_groups(
     }
 }
 
-void connect_linear_transformation_functions(
+// The signals and signal groups of a function.
+struct function_signals
+{
+    struct signal
+    {
+        full_variable_name variable;
+        variable_causality causality;
+        bool connected = false;
+    };
+    std::map<std::string, signal> signals;
+    std::unordered_map<std::string, std::vector<std::string>> groups;
+};
+
+using function_signals_map = std::unordered_map<std::string, function_signals>;
+
+void add_linear_transformation_functions(
     const std::unordered_map<std::string, osp_config_parser::LinearTransformationFunction>& functions,
-    const std::vector<osp_config_parser::SignalConnection>& signalConnections,
-    system_structure& systemStructure)
+    system_structure& systemStructure,
+    function_signals_map& functionSignals)
 {
     for (const auto& [functionName, function] : functions) {
         function_parameter_value_map functionParams;
@@ -872,21 +872,16 @@ void connect_linear_transformation_functions(
             std::make_shared<linear_transformation_function_type>(),
             functionParams);
 
-        const auto inConn = find_signal_connection(signalConnections, functionName, function.in.name);
-        const auto outConn = find_signal_connection(signalConnections, functionName, function.out.name);
-        systemStructure.connect_variables(
-            full_variable_name(inConn.variable.simulator, inConn.variable.name),
-            full_variable_name(functionName, "in", ""));
-        systemStructure.connect_variables(
-            full_variable_name(functionName, "out", ""),
-            full_variable_name(outConn.variable.simulator, outConn.variable.name));
+        auto& signals = functionSignals[functionName].signals;
+        signals.insert({function.in.name, {full_variable_name(functionName, "in", ""), function.in.causality}});
+        signals.insert({function.out.name, {full_variable_name(functionName, "out", ""), function.out.causality}});
     }
 }
 
-void connect_sum_functions(
+void add_sum_functions(
     const std::unordered_map<std::string, osp_config_parser::SumFunction>& functions,
-    const std::vector<osp_config_parser::SignalConnection>& signalConnections,
-    system_structure& systemStructure)
+    system_structure& systemStructure,
+    function_signals_map& functionSignals)
 {
     for (const auto& [functionName, function] : functions) {
         function_parameter_value_map functionParams;
@@ -896,24 +891,19 @@ void connect_sum_functions(
             std::make_shared<vector_sum_function_type>(),
             functionParams);
 
+        auto& signals = functionSignals[functionName].signals;
         for (int i = 0; i < function.inputCount; i++) {
-            const auto inConn = find_signal_connection(signalConnections, functionName, function.ins.at(i).name);
-            systemStructure.connect_variables(
-                full_variable_name(inConn.variable.simulator, inConn.variable.name),
-                full_variable_name(functionName, "in", i, "", 0));
+            const auto& in = function.ins.at(i);
+            signals.insert({in.name, {full_variable_name(functionName, "in", i, "", 0), in.causality}});
         }
-        const auto outConn = find_signal_connection(signalConnections, functionName, function.out.name);
-        systemStructure.connect_variables(
-            full_variable_name(functionName, "out", ""),
-            full_variable_name(outConn.variable.simulator, outConn.variable.name));
+        signals.insert({function.out.name, {full_variable_name(functionName, "out", ""), function.out.causality}});
     }
 }
 
-void connect_vector_sum_functions(
+void add_vector_sum_functions(
     const std::unordered_map<std::string, osp_config_parser::VectorSumFunction>& functions,
-    const std::vector<osp_config_parser::SignalConnection>& signalGroupConnections,
     system_structure& systemStructure,
-    const std::unordered_map<std::string, extended_model_description>& emds)
+    function_signals_map& functionSignals)
 {
     for (const auto& [functionName, function] : functions) {
         function_parameter_value_map functionParams;
@@ -924,29 +914,105 @@ void connect_vector_sum_functions(
             std::make_shared<vector_sum_function_type>(),
             functionParams);
 
+        auto& fs = functionSignals[functionName];
         for (int i = 0; i < function.inputCount; ++i) {
-            const auto inGroupConn = find_signal_connection(
-                signalGroupConnections, functionName, function.inGroups.at(i).name);
-            const auto& inEmd = emds.at(inGroupConn.variable.simulator);
-            const auto& inVariableGroup = inEmd.variableGroups.at(inGroupConn.variable.name);
-
+            const auto& inGroup = function.inGroups.at(i);
             for (int j = 0; j < function.dimension; ++j) {
-                const auto& inVariableName = inVariableGroup.variables.at(j);
-                systemStructure.connect_variables(
-                    full_variable_name(inGroupConn.variable.simulator, inVariableName),
-                    full_variable_name(functionName, "in", i, "", j));
+                fs.signals.insert({inGroup.signals.at(j), {full_variable_name(functionName, "in", i, "", j), variable_causality::input}});
             }
+            fs.groups.insert({inGroup.name, inGroup.signals});
         }
-
-        const auto outGroupConn = find_signal_connection(
-            signalGroupConnections, functionName, function.outGroup.name);
-        const auto& outEmd = emds.at(outGroupConn.variable.simulator);
-        const auto& outVariableGroup = outEmd.variableGroups.at(outGroupConn.variable.name);
         for (int j = 0; j < function.dimension; ++j) {
-            const auto& outVariableName = outVariableGroup.variables.at(j);
-            systemStructure.connect_variables(
-                full_variable_name(functionName, "out", 0, "", j),
-                full_variable_name(outGroupConn.variable.simulator, outVariableName));
+            fs.signals.insert({function.outGroup.signals.at(j), {full_variable_name(functionName, "out", 0, "", j), variable_causality::output}});
+        }
+        fs.groups.insert({function.outGroup.name, function.outGroup.signals});
+    }
+}
+
+function_signals& get_function_signals(
+    function_signals_map& functionSignals,
+    const std::string& functionName)
+{
+    const auto it = functionSignals.find(functionName);
+    if (it == functionSignals.end()) {
+        throw std::out_of_range("Cannot find function " + functionName);
+    }
+    return it->second;
+}
+
+void connect_signals(
+    const std::vector<osp_config_parser::SignalConnection>& signalConnections,
+    system_structure& systemStructure,
+    function_signals_map& functionSignals)
+{
+    for (const auto& connection : signalConnections) {
+        auto& signals = get_function_signals(functionSignals, connection.signal.function).signals;
+        const auto it = signals.find(connection.signal.name);
+        if (it == signals.end()) {
+            std::ostringstream oss;
+            oss << "Cannot find signal " << connection.signal.function << ":" << connection.signal.name;
+            throw std::out_of_range(oss.str());
+        }
+        auto& signal = it->second;
+        const auto variable = full_variable_name(connection.variable.simulator, connection.variable.name);
+        if (signal.causality == variable_causality::input) {
+            systemStructure.connect_variables(variable, signal.variable);
+        } else {
+            systemStructure.connect_variables(signal.variable, variable);
+        }
+        signal.connected = true;
+    }
+}
+
+void connect_signal_groups(
+    const std::vector<osp_config_parser::SignalConnection>& signalGroupConnections,
+    system_structure& systemStructure,
+    const std::unordered_map<std::string, extended_model_description>& emds,
+    function_signals_map& functionSignals)
+{
+    for (const auto& connection : signalGroupConnections) {
+        const auto& groups = get_function_signals(functionSignals, connection.signal.function).groups;
+        const auto it = groups.find(connection.signal.name);
+        if (it == groups.end()) {
+            std::ostringstream oss;
+            oss << "Cannot find signal group " << connection.signal.function << ":" << connection.signal.name;
+            throw std::out_of_range(oss.str());
+        }
+        const auto& signals = it->second;
+        const auto& emd = get_emd(emds, connection.variable.simulator);
+        const auto variables = get_variable_group_variables(emd.variableGroups, connection.variable);
+        if (variables.size() != signals.size() ||
+            !get_variable_groups(emd.variableGroups, connection.variable.name).empty()) {
+            std::ostringstream oss;
+            oss << "Cannot create connection between signal group "
+                << connection.signal.function << ":" << connection.signal.name
+                << " and variable group "
+                << connection.variable.simulator << ":" << connection.variable.name
+                << ", since they have different sizes";
+            throw std::runtime_error(oss.str());
+        }
+
+        std::vector<osp_config_parser::SignalConnection> signalConnections;
+        // clang-format off
+        for (std::size_t i = 0; i < signals.size(); ++i) {
+            signalConnections.push_back({
+                {connection.signal.function, signals.at(i)},
+                {connection.variable.simulator, variables.at(i)}});
+        }
+        // clang-format on
+        connect_signals(signalConnections, systemStructure, functionSignals);
+    }
+}
+
+void verify_all_signals_connected(const function_signals_map& functionSignals)
+{
+    for (const auto& [functionName, fs] : functionSignals) {
+        for (const auto& [signalName, signal] : fs.signals) {
+            if (!signal.connected) {
+                std::ostringstream oss;
+                oss << "Missing expected connection to " << functionName << ":" << signalName;
+                throw std::out_of_range(oss.str());
+            }
         }
     }
 }
@@ -1053,9 +1119,14 @@ osp_config load_osp_config(
 
     connect_variables(parser.get_variable_connections(), config.system_structure);
     connect_variable_groups(parser.get_variable_group_connections(), config.system_structure, emds);
-    connect_linear_transformation_functions(parser.get_linear_transformation_functions(), parser.get_signal_connections(), config.system_structure);
-    connect_sum_functions(parser.get_sum_functions(), parser.get_signal_connections(), config.system_structure);
-    connect_vector_sum_functions(parser.get_vector_sum_functions(), parser.get_signal_group_connections(), config.system_structure, emds);
+
+    function_signals_map functionSignals;
+    add_linear_transformation_functions(parser.get_linear_transformation_functions(), config.system_structure, functionSignals);
+    add_sum_functions(parser.get_sum_functions(), config.system_structure, functionSignals);
+    add_vector_sum_functions(parser.get_vector_sum_functions(), config.system_structure, functionSignals);
+    connect_signals(parser.get_signal_connections(), config.system_structure, functionSignals);
+    connect_signal_groups(parser.get_signal_group_connections(), config.system_structure, emds, functionSignals);
+    verify_all_signals_connected(functionSignals);
 
     return config;
 }
-- 
2.43.0


From d221f11ca58b5ffd7d566522ef2b066f87477727 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:37 +0000
Subject: [PATCH 52/80] fix: connect nested variable groups as such, and report
 unknown variable groups

---
 src/cosim/osp_config_parser.cpp | 157 ++++++++++++++++----------------
 1 file changed, 79 insertions(+), 78 deletions(-)

diff --git a/src/cosim/osp_config_parser.cpp b/src/cosim/osp_config_parser.cpp
index 45f7ad6..f33fa90 100644
--- a/src/cosim/osp_config_parser.cpp
+++ b/src/cosim/osp_config_parser.cpp
@@ -735,7 +735,7 @@ void connect_variables(
     }
 }
 
-extended_model_description get_emd(
+const extended_model_description& get_emd(
     const std::unordered_map<std::string, extended_model_description>& emds,
     const std::string& element)
 {
@@ -748,98 +748,99 @@ extended_model_description get_emd(
     return emdIt->second;
 }
 
-std::vector<std::string> get_variable_group_variables(
-    const std::unordered_map<std::string, variable_group_description>& descriptions,
-    const osp_config_parser::VariableEndpoint& endpoint)
+const variable_group_description* find_nested_variable_group(
+    const std::vector<variable_group_description>& descriptions,
+    const std::string& name)
 {
-    std::vector<std::string> groupVariables;
-    auto groupIt = descriptions.find(endpoint.name);
-    if (groupIt == descriptions.end()) {
-        for (const auto& description : descriptions) {
-            if (description.second.variable_group_descriptions.size() != 0) {
-                std::unordered_map<std::string, variable_group_description> nestedDescriptions;
-                for (const auto& variableGroupDescr : description.second.variable_group_descriptions) {
-                    nestedDescriptions.insert({variableGroupDescr.name, variableGroupDescr});
-                }
-                groupVariables = get_variable_group_variables(nestedDescriptions, endpoint);
-                if (groupVariables.size() > 0) {
-                    break;
-                }
-            }
+    for (const auto& description : descriptions) {
+        if (description.name == name) return &description;
+        if (const auto nested = find_nested_variable_group(description.variable_group_descriptions, name)) {
+            return nested;
         }
-    } else {
-        groupVariables = groupIt->second.variables;
     }
-    return groupVariables;
+    return nullptr;
 }
 
-std::vector<cosim::variable_group_description> get_variable_groups(
-    const std::unordered_map<std::string, variable_group_description>& descriptions,
-    const std::string& connector)
+const variable_group_description& get_variable_group(
+    const extended_model_description& emd,
+    const osp_config_parser::VariableEndpoint& endpoint)
 {
-    auto groupIt = descriptions.find(connector);
-    if (groupIt == descriptions.end()) {
-        return {};
+    const auto groupIt = emd.variableGroups.find(endpoint.name);
+    if (groupIt != emd.variableGroups.end()) return groupIt->second;
+    for (const auto& description : emd.variableGroups) {
+        if (const auto nested = find_nested_variable_group(description.second.variable_group_descriptions, endpoint.name)) {
+            return *nested;
+        }
     }
-    return groupIt->second.variable_group_descriptions;
+    std::ostringstream oss;
+    oss << "Cannot find variable group " << endpoint.simulator << ":" << endpoint.name;
+    throw std::out_of_range(oss.str());
 }
 
+void connect_variable_groups(
+    const std::string& simulatorA,
+    const variable_group_description& groupA,
+    const std::string& simulatorB,
+    const variable_group_description& groupB,
+    system_structure& systemStructure)
+{
+    const auto& variableGroupsA = groupA.variable_group_descriptions;
+    const auto& variableGroupsB = groupB.variable_group_descriptions;
+    if (variableGroupsA.size() != variableGroupsB.size()) {
+        std::ostringstream oss;
+        oss << "Cannot create connection between variable groups. Variable group "
+            << simulatorA << ":" << groupA.name
+            << " has different size [" << variableGroupsA.size() << "] than variable group "
+            << simulatorB << ":" << groupB.name
+            << " size [" << variableGroupsB.size() << "]";
+        throw std::runtime_error(oss.str());
+    }
+    for (std::size_t i = 0; i < variableGroupsA.size(); ++i) {
+        connect_variable_groups(
+            simulatorA, variableGroupsA.at(i),
+            simulatorB, variableGroupsB.at(i),
+            systemStructure);
+    }
+
+    const auto& variablesA = groupA.variables;
+    const auto& variablesB = groupB.variables;
+    if (variablesA.size() != variablesB.size()) {
+        std::ostringstream oss;
+        oss << "Cannot create connection between variable groups. Variable group "
+            << simulatorA << ":" << groupA.name
+            << " has different size [" << variablesA.size() << "] than variable group "
+            << simulatorB << ":" << groupB.name
+            << " size [" << variablesB.size() << "]";
+        throw std::runtime_error(oss.str());
+    }
+
+    std::vector<osp_config_parser::VariableConnection> variableConnections;
+
+    // clang-format off
+    for (std::size_t i = 0; i < variablesA.size(); ++i) {
+        variableConnections.push_back({
+            {simulatorA, variablesA.at(i)},
+            {simulatorB, variablesB.at(i)}});
+    }
+    // clang-format on
+
+    connect_variables(variableConnections, systemStructure);
+}
 
 void connect_variable_groups(
     const std::vector<osp_config_parser::VariableConnection>& variableGroupConnections,
     system_structure& systemStructure,
     const std::unordered_map<std::string, extended_model_description>& emds)
 {
-
     for (const auto& connection : variableGroupConnections) {
         const auto& emdA = get_emd(emds, connection.variableA.simulator);
         const auto& emdB = get_emd(emds, connection.variableB.simulator);
-        const auto& variablesA = get_variable_group_variables(emdA.variableGroups, connection.variableA);
-        const auto& variablesB = get_variable_group_variables(emdB.variableGroups, connection.variableB);
-        const auto& variableGroupsA = get_variable_groups(emdA.variableGroups, connection.variableA.name);
-        const auto& variableGroupsB = get_variable_groups(emdB.variableGroups, connection.variableB.name);
-
-        if (variableGroupsA.size() != variableGroupsB.size()) {
-            std::ostringstream oss;
-            oss << "Cannot create connection between variable groups. Variable group "
-                << connection.variableA.simulator << ":" << connection.variableA.name
-                << " has different size [" << variableGroupsA.size() << "] than variable group "
-                << connection.variableB.simulator << ":" << connection.variableB.name
-                << " size [" << variableGroupsB.size() << "]";
-            throw std::runtime_error(oss.str());
-        }
-
-        std::vector<osp_config_parser::VariableConnection> nestedVariableGroupConnections;
-        // clang-format off
-        for (std::size_t i = 0; i < variableGroupsA.size(); ++i) {
-            nestedVariableGroupConnections.push_back({
-                {connection.variableA.simulator, variableGroupsA.at(i).name},
-                {connection.variableB.simulator, variableGroupsB.at(i).name}});
-        }
-        // clang-format on
-        connect_variable_groups(nestedVariableGroupConnections, systemStructure, emds);
-
-        if (variablesA.size() != variablesB.size()) {
-            std::ostringstream oss;
-            oss << "Cannot create connection between variable groups. Variable group "
-                << connection.variableA.simulator << ":" << connection.variableA.name
-                << " has different size [" << variablesA.size() << "] than variable group "
-                << connection.variableB.simulator << ":" << connection.variableB.name
-                << " size [" << variablesB.size() << "]";
-            throw std::runtime_error(oss.str());
-        }
-
-        std::vector<osp_config_parser::VariableConnection> variableConnections;
-
-        // clang-format off
-        for (std::size_t i = 0; i < variablesA.size(); ++i) {
-            variableConnections.push_back({
-                {connection.variableA.simulator, variablesA.at(i)},
-                {connection.variableB.simulator, variablesB.at(i)}});
-        }
-        // clang-format on
-
-        connect_variables(variableConnections, systemStructure);
+        connect_variable_groups(
+            connection.variableA.simulator,
+            get_variable_group(emdA, connection.variableA),
+            connection.variableB.simulator,
+            get_variable_group(emdB, connection.variableB),
+            systemStructure);
     }
 }
 
@@ -980,9 +981,9 @@ void connect_signal_groups(
         }
         const auto& signals = it->second;
         const auto& emd = get_emd(emds, connection.variable.simulator);
-        const auto variables = get_variable_group_variables(emd.variableGroups, connection.variable);
-        if (variables.size() != signals.size() ||
-            !get_variable_groups(emd.variableGroups, connection.variable.name).empty()) {
+        const auto& group = get_variable_group(emd, connection.variable);
+        const auto& variables = group.variables;
+        if (variables.size() != signals.size() || !group.variable_group_descriptions.empty()) {
             std::ostringstream oss;
             oss << "Cannot create connection between signal group "
                 << connection.signal.function << ":" << connection.signal.name
-- 
2.43.0


From 7543296d9d7514606f6621659bac0ceae85847e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:46 +0000
Subject: [PATCH 53/80] fix: report XML parsing failures in OSP files by means
 of standard exceptions

---
 src/cosim/osp_config_parser.cpp | 20 +++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/src/cosim/osp_config_parser.cpp b/src/cosim/osp_config_parser.cpp
index f33fa90..8a0ba28 100644
--- a/src/cosim/osp_config_parser.cpp
+++ b/src/cosim/osp_config_parser.cpp
@@ -16,8 +16,10 @@
 #include <xercesc/dom/DOM.hpp>
 #include <xercesc/framework/MemBufInputSource.hpp>
 #include <xercesc/framework/Wrapper4InputSource.hpp>
+#include <xercesc/sax/SAXException.hpp>
 #include <xercesc/util/PlatformUtils.hpp>
 #include <xercesc/util/TransService.hpp>
+#include <xercesc/util/XMLException.hpp>
 #include <xercesc/util/XMLString.hpp>
 
 #include <chrono>
@@ -81,7 +83,23 @@ xercesc::DOMDocument* parse_file(xercesc::DOMLSParser* parser, const cosim::file
         contentsStr.size(),
         tc(std::string(path_to_file_uri(path).view()).c_str()).get());
     const xercesc::Wrapper4InputSource wrapper(&source, false);
-    return parser->parse(&wrapper);
+
+    // Xerces' exceptions aren't derived from `std::exception`, and they must
+    // not outlive its initialisation.
+    const auto failure = [&](const XMLCh* reason) {
+        std::ostringstream oss;
+        oss << "Failed to parse " << path.string() << ": " << tc(reason).get();
+        return std::runtime_error(oss.str());
+    };
+    try {
+        return parser->parse(&wrapper);
+    } catch (const xercesc::XMLException& e) {
+        throw failure(e.getMessage());
+    } catch (const xercesc::SAXException& e) {
+        throw failure(e.getMessage());
+    } catch (const xercesc::DOMException& e) {
+        throw failure(e.getMessage());
+    }
 }
 
 class error_handler : public xercesc::DOMErrorHandler
-- 
2.43.0


From 6b4be707e7ffa10b2c5a729dbac01de1c3530667 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:01 +0000
Subject: [PATCH 54/80] fix: don't leak the XML parser and document for each
 OSP file

---
 src/cosim/osp_config_parser.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/cosim/osp_config_parser.cpp b/src/cosim/osp_config_parser.cpp
index 8a0ba28..f3010dd 100644
--- a/src/cosim/osp_config_parser.cpp
+++ b/src/cosim/osp_config_parser.cpp
@@ -332,6 +332,9 @@ osp_config_parser::osp_config_parser(
         tc("http://www.w3.org/2001/XMLSchema").get());
 
     error_handler errorHandler;
+    const auto parser_cleanup = final_action([parser]() {
+        parser->release();
+    });
 
     std::string xsd_str = osp_xsd;
 
@@ -685,6 +688,9 @@ struct extended_model_description
         const auto parser = static_cast<xercesc::DOMImplementationLS*>(domImpl)->createLSParser(xercesc::DOMImplementationLS::MODE_SYNCHRONOUS, tc("http://www.w3.org/2001/XMLSchema").get());
 
         error_handler errorHandler;
+        const auto parser_cleanup = final_action([parser]() {
+            parser->release();
+        });
         parser->getDomConfig()->setParameter(xercesc::XMLUni::fgDOMErrorHandler, &errorHandler);
 
         const auto doc = parse_file(parser, ospModelDescription);
-- 
2.43.0


From f3c858eba51c08d9a8298ce603cf5d8ea862a805 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:24 +0000
Subject: [PATCH 55/80] fix: don't terminate on unsupported connector and
 parameter types in SSP files

---
 src/cosim/ssp/ssp_parser.cpp | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/cosim/ssp/ssp_parser.cpp b/src/cosim/ssp/ssp_parser.cpp
index 9ddb60a..7ade3bd 100644
--- a/src/cosim/ssp/ssp_parser.cpp
+++ b/src/cosim/ssp/ssp_parser.cpp
@@ -5,10 +5,11 @@
  */
 #include "cosim/ssp/ssp_parser.hpp"
 
-#include "cosim/error.hpp"
-
 #include <boost/property_tree/xml_parser.hpp>
 
+#include <sstream>
+#include <stdexcept>
+
 namespace cosim
 {
 
@@ -39,9 +40,9 @@ variable_type parse_connector_type(const boost::property_tree::ptree& tree)
     } else if (tree.get_child_optional("ssc:String")) {
         return variable_type::string;
     } else if (tree.get_child_optional("ssc:Enumeration")) {
-        COSIM_PANIC_M("Don't know how to handle Enumeration type!");
+        throw std::invalid_argument("Connectors of type Enumeration are not supported!");
     } else if (tree.get_child_optional("ssc:Binary")) {
-        COSIM_PANIC_M("Don't know how to handle Binary type!");
+        throw std::invalid_argument("Connectors of type Binary are not supported!");
     } else {
         throw std::invalid_argument("A valid connector type was not found!");
     }
@@ -66,7 +67,7 @@ ssp_parser::ParameterSet parse_parameter_set(const boost::property_tree::ptree&
             const auto value = get_attribute<std::string>(*stringParameter, "value");
             parameterSet.parameters.push_back({name, variable_type::string, value});
         } else {
-            COSIM_PANIC();
+            throw std::invalid_argument("The value of parameter '" + name + "' is missing or has an unsupported type!");
         }
     }
     return parameterSet;
-- 
2.43.0


From 230c31ca384777b09f8a1e753e981005e84a0c39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:36 +0000
Subject: [PATCH 56/80] fix: accept attributes (including namespace
 declarations) on all elements in SSP files

---
 src/cosim/ssp/ssp_parser.cpp | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/cosim/ssp/ssp_parser.cpp b/src/cosim/ssp/ssp_parser.cpp
index 7ade3bd..70d2fcc 100644
--- a/src/cosim/ssp/ssp_parser.cpp
+++ b/src/cosim/ssp/ssp_parser.cpp
@@ -29,6 +29,12 @@ std::optional<T> get_optional_attribute(const boost::property_tree::ptree& tree,
     return result ? *result : std::optional<T>();
 }
 
+// Whether a child node in a property tree represents its parent's attributes.
+bool is_attributes(const boost::property_tree::ptree::value_type& node)
+{
+    return node.first == "<xmlattr>";
+}
+
 variable_type parse_connector_type(const boost::property_tree::ptree& tree)
 {
     if (tree.get_child_optional("ssc:Real")) {
@@ -53,6 +59,7 @@ ssp_parser::ParameterSet parse_parameter_set(const boost::property_tree::ptree&
     ssp_parser::ParameterSet parameterSet{};
     parameterSet.name = get_attribute<std::string>(parameterSetNode, "name");
     for (const auto& parameter : parameterSetNode.get_child("ssv:Parameters")) {
+        if (is_attributes(parameter)) continue;
         const auto name = get_attribute<std::string>(parameter.second, "name");
         if (const auto realParameter = parameter.second.get_child_optional("ssv:Real")) {
             const auto value = get_attribute<double>(*realParameter, "value");
@@ -113,9 +120,11 @@ ssp_parser::ssp_parser(const cosim::filesystem::path& ssdPath)
 
         if (const auto annotations = defaultExperiment->get_child_optional("ssd:Annotations")) {
             for (const auto& annotation : *annotations) {
+                if (is_attributes(annotation)) continue;
                 const auto& annotationType = get_attribute<std::string>(annotation.second, "type");
                 if (annotationType == "com.opensimulationplatform") {
                     for (const auto& algorithm : annotation.second.get_child("osp:Algorithm")) {
+                        if (is_attributes(algorithm)) continue;
                         if (algorithm.first == "osp:FixedStepAlgorithm") {
                             auto baseStepSize = get_attribute<double>(algorithm.second, "baseStepSize");
                             auto numWorkerThreads = get_optional_attribute<unsigned int>(algorithm.second, "numWorkerThreads");
@@ -134,6 +143,7 @@ ssp_parser::ssp_parser(const cosim::filesystem::path& ssdPath)
     systemDescription_.system.description = get_optional_attribute<std::string>(system, "description");
 
     for (const auto& component : system.get_child("ssd:Elements")) {
+        if (is_attributes(component)) continue;
 
         Component comp;
         comp.name = get_attribute<std::string>(component.second, "name");
@@ -153,6 +163,7 @@ ssp_parser::ssp_parser(const cosim::filesystem::path& ssdPath)
 
         if (const auto parameterBindings = component.second.get_child_optional("ssd:ParameterBindings")) {
             for (const auto& parameterBinding : *parameterBindings) {
+                if (is_attributes(parameterBinding)) continue;
                 if (const auto& source = get_optional_attribute<std::string>(parameterBinding.second, "source")) {
                     boost::property_tree::ptree binding;
                     cosim::filesystem::path ssvPath = ssdPath.parent_path() / *source;
@@ -176,6 +187,7 @@ ssp_parser::ssp_parser(const cosim::filesystem::path& ssdPath)
 
         if (const auto annotations = component.second.get_child_optional("ssd:Annotations")) {
             for (const auto& annotation : *annotations) {
+                if (is_attributes(annotation)) continue;
                 const auto& annotationType = get_attribute<std::string>(annotation.second, "type");
                 if (annotationType == "com.opensimulationplatform") {
                     if (const auto& stepSizeHint = annotation.second.get_child_optional("osp:StepSizeHint")) {
@@ -189,6 +201,7 @@ ssp_parser::ssp_parser(const cosim::filesystem::path& ssdPath)
 
     if (const auto connections = system.get_child_optional("ssd:Connections")) {
         for (const auto& connection : *connections) {
+            if (is_attributes(connection)) continue;
             auto& c = connections_.emplace_back();
             c.startElement = check_component(get_attribute<std::string>(connection.second, "startElement"), elements_);
             c.startConnector = check_connector(get_attribute<std::string>(connection.second, "startConnector"), c.startElement);
-- 
2.43.0


From 96f6fcc1ddb2909a478aa84e663991735ddfe2da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:47 +0000
Subject: [PATCH 57/80] fix: reject invalid values of optional attributes in
 SSP files

---
 src/cosim/ssp/ssp_parser.cpp | 24 ++++++++++++++++++++----
 1 file changed, 20 insertions(+), 4 deletions(-)

diff --git a/src/cosim/ssp/ssp_parser.cpp b/src/cosim/ssp/ssp_parser.cpp
index 70d2fcc..68bb259 100644
--- a/src/cosim/ssp/ssp_parser.cpp
+++ b/src/cosim/ssp/ssp_parser.cpp
@@ -7,6 +7,7 @@
 
 #include <boost/property_tree/xml_parser.hpp>
 
+#include <limits>
 #include <sstream>
 #include <stdexcept>
 
@@ -19,14 +20,29 @@ namespace
 template<typename T>
 T get_attribute(const boost::property_tree::ptree& tree, const std::string& key, const std::optional<T> defaultValue = {})
 {
-    return !defaultValue ? tree.get<T>("<xmlattr>." + key) : tree.get<T>("<xmlattr>." + key, *defaultValue);
+    // The default is for when the attribute is missing, not for when it is invalid.
+    const auto path = "<xmlattr>." + key;
+    if (defaultValue && !tree.get_child_optional(path)) return *defaultValue;
+    return tree.get<T>(path);
 }
 
 template<typename T>
 std::optional<T> get_optional_attribute(const boost::property_tree::ptree& tree, const std::string& key)
 {
-    const auto result = tree.get_optional<T>("<xmlattr>." + key);
-    return result ? *result : std::optional<T>();
+    const auto path = "<xmlattr>." + key;
+    if (!tree.get_child_optional(path)) return std::nullopt;
+    return tree.get<T>(path);
+}
+
+std::optional<unsigned int> get_worker_thread_count(const boost::property_tree::ptree& algorithm)
+{
+    // Extraction directly to an unsigned type would accept negative numbers.
+    const auto count = get_optional_attribute<long long>(algorithm, "numWorkerThreads");
+    if (!count) return std::nullopt;
+    if (*count < 0 || *count > std::numeric_limits<unsigned int>::max()) {
+        throw std::invalid_argument("Invalid number of worker threads: " + std::to_string(*count));
+    }
+    return static_cast<unsigned int>(*count);
 }
 
 // Whether a child node in a property tree represents its parent's attributes.
@@ -127,7 +143,7 @@ ssp_parser::ssp_parser(const cosim::filesystem::path& ssdPath)
                         if (is_attributes(algorithm)) continue;
                         if (algorithm.first == "osp:FixedStepAlgorithm") {
                             auto baseStepSize = get_attribute<double>(algorithm.second, "baseStepSize");
-                            auto numWorkerThreads = get_optional_attribute<unsigned int>(algorithm.second, "numWorkerThreads");
+                            const auto numWorkerThreads = get_worker_thread_count(algorithm.second);
                             defaultExperiment_.algorithm = std::make_unique<cosim::fixed_step_algorithm>(cosim::to_duration(baseStepSize), numWorkerThreads);
                         } else {
                             throw std::runtime_error("Unknown algorithm: " + algorithm.first);
-- 
2.43.0


From ffd2c05041440e040eae6fb2865d77d756dfab72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:58 +0000
Subject: [PATCH 58/80] fix: reject SSP files with duplicate component names

---
 src/cosim/ssp/ssp_parser.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/cosim/ssp/ssp_parser.cpp b/src/cosim/ssp/ssp_parser.cpp
index 68bb259..b10560c 100644
--- a/src/cosim/ssp/ssp_parser.cpp
+++ b/src/cosim/ssp/ssp_parser.cpp
@@ -212,7 +212,9 @@ ssp_parser::ssp_parser(const cosim::filesystem::path& ssdPath)
                 }
             }
         }
-        elements_[comp.name] = comp;
+        if (!elements_.emplace(comp.name, comp).second) {
+            throw std::runtime_error("There are several components named '" + comp.name + "'!");
+        }
     }
 
     if (const auto connections = system.get_child_optional("ssd:Connections")) {
-- 
2.43.0


From 38c4dcd32e4698f8b20f20ce6023a0cd008d12ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:09 +0000
Subject: [PATCH 59/80] fix: don't ignore the prefix of parameter bindings in
 SSP files

---
 src/cosim/ssp/ssp_parser.cpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/cosim/ssp/ssp_parser.cpp b/src/cosim/ssp/ssp_parser.cpp
index b10560c..45f3df1 100644
--- a/src/cosim/ssp/ssp_parser.cpp
+++ b/src/cosim/ssp/ssp_parser.cpp
@@ -70,13 +70,13 @@ variable_type parse_connector_type(const boost::property_tree::ptree& tree)
     }
 }
 
-ssp_parser::ParameterSet parse_parameter_set(const boost::property_tree::ptree& parameterSetNode)
+ssp_parser::ParameterSet parse_parameter_set(const boost::property_tree::ptree& parameterSetNode, const std::string& prefix)
 {
     ssp_parser::ParameterSet parameterSet{};
     parameterSet.name = get_attribute<std::string>(parameterSetNode, "name");
     for (const auto& parameter : parameterSetNode.get_child("ssv:Parameters")) {
         if (is_attributes(parameter)) continue;
-        const auto name = get_attribute<std::string>(parameter.second, "name");
+        const auto name = prefix + get_attribute<std::string>(parameter.second, "name");
         if (const auto realParameter = parameter.second.get_child_optional("ssv:Real")) {
             const auto value = get_attribute<double>(*realParameter, "value");
             parameterSet.parameters.push_back({name, variable_type::real, value});
@@ -180,6 +180,7 @@ ssp_parser::ssp_parser(const cosim::filesystem::path& ssdPath)
         if (const auto parameterBindings = component.second.get_child_optional("ssd:ParameterBindings")) {
             for (const auto& parameterBinding : *parameterBindings) {
                 if (is_attributes(parameterBinding)) continue;
+                const auto prefix = get_attribute<std::string>(parameterBinding.second, "prefix", "");
                 if (const auto& source = get_optional_attribute<std::string>(parameterBinding.second, "source")) {
                     boost::property_tree::ptree binding;
                     cosim::filesystem::path ssvPath = ssdPath.parent_path() / *source;
@@ -190,11 +191,11 @@ ssp_parser::ssp_parser(const cosim::filesystem::path& ssdPath)
                     }
                     boost::property_tree::read_xml(ssvPath.string(), binding,
                         boost::property_tree::xml_parser::no_comments | boost::property_tree::xml_parser::trim_whitespace);
-                    const auto parameterSet = parse_parameter_set(binding.get_child("ssv:ParameterSet"));
+                    const auto parameterSet = parse_parameter_set(binding.get_child("ssv:ParameterSet"), prefix);
                     comp.parameterSets.push_back(parameterSet);
                 } else {
                     if (const auto parameterValues = parameterBinding.second.get_child_optional("ssd:ParameterValues")) {
-                        const auto parameterSet = parse_parameter_set(parameterValues->get_child("ssv:ParameterSet"));
+                        const auto parameterSet = parse_parameter_set(parameterValues->get_child("ssv:ParameterSet"), prefix);
                         comp.parameterSets.push_back(parameterSet);
                     }
                 }
-- 
2.43.0


From efc89a1f06a2b4bfc1b59d9c5751144d8aa00473 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:53 +0000
Subject: [PATCH 60/80] fix: accept systems without elements, and connectors
 without a type, in SSP files

---
 src/cosim/ssp/ssp_parser.cpp | 8 +++++---
 src/cosim/ssp/ssp_parser.hpp | 2 +-
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/cosim/ssp/ssp_parser.cpp b/src/cosim/ssp/ssp_parser.cpp
index 45f3df1..e0c7e0d 100644
--- a/src/cosim/ssp/ssp_parser.cpp
+++ b/src/cosim/ssp/ssp_parser.cpp
@@ -51,7 +51,7 @@ bool is_attributes(const boost::property_tree::ptree::value_type& node)
     return node.first == "<xmlattr>";
 }
 
-variable_type parse_connector_type(const boost::property_tree::ptree& tree)
+std::optional<variable_type> parse_connector_type(const boost::property_tree::ptree& tree)
 {
     if (tree.get_child_optional("ssc:Real")) {
         return variable_type::real;
@@ -66,7 +66,8 @@ variable_type parse_connector_type(const boost::property_tree::ptree& tree)
     } else if (tree.get_child_optional("ssc:Binary")) {
         throw std::invalid_argument("Connectors of type Binary are not supported!");
     } else {
-        throw std::invalid_argument("A valid connector type was not found!");
+        // The type is optional, and by default that of the underlying variable.
+        return std::nullopt;
     }
 }
 
@@ -158,7 +159,8 @@ ssp_parser::ssp_parser(const cosim::filesystem::path& ssdPath)
     systemDescription_.system.name = get_attribute<std::string>(system, "name");
     systemDescription_.system.description = get_optional_attribute<std::string>(system, "description");
 
-    for (const auto& component : system.get_child("ssd:Elements")) {
+    const auto elements = system.get_child("ssd:Elements", boost::property_tree::ptree());
+    for (const auto& component : elements) {
         if (is_attributes(component)) continue;
 
         Component comp;
diff --git a/src/cosim/ssp/ssp_parser.hpp b/src/cosim/ssp/ssp_parser.hpp
index e2b0625..98a3511 100644
--- a/src/cosim/ssp/ssp_parser.hpp
+++ b/src/cosim/ssp/ssp_parser.hpp
@@ -53,7 +53,7 @@ public:
     {
         std::string name;
         std::string kind;
-        cosim::variable_type type;
+        std::optional<cosim::variable_type> type;
     };
 
     struct Parameter
-- 
2.43.0


From 5b99bac95a1a602a30435f30f517e060fadadb22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:04 +0000
Subject: [PATCH 61/80] fix: reject SSP connections with unsupported
 transformations

---
 src/cosim/ssp/ssp_parser.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/cosim/ssp/ssp_parser.cpp b/src/cosim/ssp/ssp_parser.cpp
index e0c7e0d..1aaf821 100644
--- a/src/cosim/ssp/ssp_parser.cpp
+++ b/src/cosim/ssp/ssp_parser.cpp
@@ -235,6 +235,11 @@ ssp_parser::ssp_parser(const cosim::filesystem::path& ssdPath)
                 auto factor = get_attribute<double>(*l, "factor", 1.0);
                 c.linearTransformation = {offset, factor};
             }
+            for (const char* unsupported : {"ssc:BooleanMappingTransformation", "ssc:IntegerMappingTransformation", "ssc:EnumerationMappingTransformation"}) {
+                if (connection.second.get_child_optional(unsupported)) {
+                    throw std::runtime_error(std::string("Unsupported connection transformation: ") + unsupported);
+                }
+            }
         }
     }
 }
-- 
2.43.0


From 5f3fd0446ae1724ed0160e78ae727399cd623137 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:19 +0000
Subject: [PATCH 62/80] fix: resolve the sources of parameter bindings in SSP
 files as URIs

---
 src/cosim/ssp/ssp_parser.cpp | 22 +++++++++++++++++++++-
 1 file changed, 21 insertions(+), 1 deletion(-)

diff --git a/src/cosim/ssp/ssp_parser.cpp b/src/cosim/ssp/ssp_parser.cpp
index 1aaf821..93a10c5 100644
--- a/src/cosim/ssp/ssp_parser.cpp
+++ b/src/cosim/ssp/ssp_parser.cpp
@@ -5,6 +5,8 @@
  */
 #include "cosim/ssp/ssp_parser.hpp"
 
+#include "cosim/uri.hpp"
+
 #include <boost/property_tree/xml_parser.hpp>
 
 #include <limits>
@@ -97,6 +99,24 @@ ssp_parser::ParameterSet parse_parameter_set(const boost::property_tree::ptree&
     return parameterSet;
 }
 
+// Finds the file referred to by the `source` attribute of a parameter binding.
+cosim::filesystem::path resolve_source(const cosim::filesystem::path& ssdPath, const std::string& source)
+{
+    // The attribute is supposed to contain a URI reference, but file names which
+    // aren't valid or which aren't properly encoded are tolerated.
+    try {
+        const auto sourceUri = resolve_reference(
+            path_to_file_uri(cosim::filesystem::absolute(ssdPath)),
+            uri(source));
+        if (sourceUri.scheme() == "file") {
+            const auto path = file_uri_to_path(sourceUri);
+            if (cosim::filesystem::exists(path)) return path;
+        }
+    } catch (const std::invalid_argument&) {
+    }
+    return ssdPath.parent_path() / source;
+}
+
 inline ssp_parser::Component check_component(const std::string& name, std::unordered_map<std::string, ssp_parser::Component> elements)
 {
     if (elements.count(name)) {
@@ -185,7 +205,7 @@ ssp_parser::ssp_parser(const cosim::filesystem::path& ssdPath)
                 const auto prefix = get_attribute<std::string>(parameterBinding.second, "prefix", "");
                 if (const auto& source = get_optional_attribute<std::string>(parameterBinding.second, "source")) {
                     boost::property_tree::ptree binding;
-                    cosim::filesystem::path ssvPath = ssdPath.parent_path() / *source;
+                    cosim::filesystem::path ssvPath = resolve_source(ssdPath, *source);
                     if (!cosim::filesystem::exists(ssvPath)) {
                         std::ostringstream oss;
                         oss << "File '" << ssvPath << "' does not exists!";
-- 
2.43.0


From 198f0455815c56af89ec88c0191728c3af7d5d99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:32 +0000
Subject: [PATCH 63/80] fix: reject unrepresentable times and step sizes in SSP
 files

---
 src/cosim/ssp/ssp_loader.cpp |  2 +-
 src/cosim/ssp/ssp_parser.cpp | 17 ++++++++++++++---
 src/cosim/ssp/ssp_parser.hpp |  6 ++++++
 3 files changed, 21 insertions(+), 4 deletions(-)

diff --git a/src/cosim/ssp/ssp_loader.cpp b/src/cosim/ssp/ssp_loader.cpp
index 68104b3..7b91acc 100644
--- a/src/cosim/ssp/ssp_loader.cpp
+++ b/src/cosim/ssp/ssp_loader.cpp
@@ -97,7 +97,7 @@ ssp_configuration ssp_loader::load(const cosim::filesystem::path& configPath)
         configuration.system_structure.add_entity(
             componentName,
             modelResolver_->lookup_model(baseURI, component.source),
-            cosim::to_duration(component.stepSizeHint.value_or(0)));
+            checked_to_duration(component.stepSizeHint.value_or(0)));
 
         for (const auto& paramSet : component.parameterSets) {
             add_parameter_set(
diff --git a/src/cosim/ssp/ssp_parser.cpp b/src/cosim/ssp/ssp_parser.cpp
index 93a10c5..1aed1c3 100644
--- a/src/cosim/ssp/ssp_parser.cpp
+++ b/src/cosim/ssp/ssp_parser.cpp
@@ -9,6 +9,8 @@
 
 #include <boost/property_tree/xml_parser.hpp>
 
+#include <chrono>
+#include <cmath>
 #include <limits>
 #include <sstream>
 #include <stdexcept>
@@ -163,9 +165,9 @@ ssp_parser::ssp_parser(const cosim::filesystem::path& ssdPath)
                     for (const auto& algorithm : annotation.second.get_child("osp:Algorithm")) {
                         if (is_attributes(algorithm)) continue;
                         if (algorithm.first == "osp:FixedStepAlgorithm") {
-                            auto baseStepSize = get_attribute<double>(algorithm.second, "baseStepSize");
+                            const auto baseStepSize = get_attribute<double>(algorithm.second, "baseStepSize");
                             const auto numWorkerThreads = get_worker_thread_count(algorithm.second);
-                            defaultExperiment_.algorithm = std::make_unique<cosim::fixed_step_algorithm>(cosim::to_duration(baseStepSize), numWorkerThreads);
+                            defaultExperiment_.algorithm = std::make_unique<cosim::fixed_step_algorithm>(checked_to_duration(baseStepSize), numWorkerThreads);
                         } else {
                             throw std::runtime_error("Unknown algorithm: " + algorithm.first);
                         }
@@ -281,9 +283,18 @@ const ssp_parser::DefaultExperiment& ssp_parser::get_default_experiment() const
     return defaultExperiment_;
 }
 
+cosim::duration checked_to_duration(double seconds)
+{
+    const auto limit = std::chrono::duration<double>(duration::max()).count();
+    if (!(std::abs(seconds) < limit)) {
+        throw std::out_of_range("Time or step size out of range: " + std::to_string(seconds));
+    }
+    return to_duration(seconds);
+}
+
 cosim::time_point get_default_start_time(const ssp_parser& parser)
 {
-    return cosim::to_time_point(parser.get_default_experiment().startTime);
+    return time_point(checked_to_duration(parser.get_default_experiment().startTime));
 }
 
 cosim::variable_id get_variable(
diff --git a/src/cosim/ssp/ssp_parser.hpp b/src/cosim/ssp/ssp_parser.hpp
index 98a3511..dafe99b 100644
--- a/src/cosim/ssp/ssp_parser.hpp
+++ b/src/cosim/ssp/ssp_parser.hpp
@@ -111,6 +111,12 @@ struct slave_info
     std::map<std::string, cosim::variable_description> variables;
 };
 
+/**
+ *  Converts a number of seconds to a `duration`, after verifying that it is
+ *  within the range of that type.
+ */
+cosim::duration checked_to_duration(double seconds);
+
 cosim::time_point get_default_start_time(const ssp_parser& parser);
 
 cosim::variable_id get_variable(
-- 
2.43.0


From 4a66efa704f146dbdd9b7d151f6114929e851b97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:44 +0000
Subject: [PATCH 64/80] fix: don't treat directories named *.ssp as SSP
 archives

---
 src/cosim/ssp/ssp_loader.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cosim/ssp/ssp_loader.cpp b/src/cosim/ssp/ssp_loader.cpp
index 7b91acc..50265bb 100644
--- a/src/cosim/ssp/ssp_loader.cpp
+++ b/src/cosim/ssp/ssp_loader.cpp
@@ -72,7 +72,7 @@ ssp_configuration ssp_loader::load(const cosim::filesystem::path& configPath)
 {
     auto sspFile = configPath;
     std::optional<cosim::utility::temp_dir> temp_ssp_dir;
-    if (sspFile.extension() == ".ssp") {
+    if (sspFile.extension() == ".ssp" && !cosim::filesystem::is_directory(sspFile)) {
         temp_ssp_dir = cosim::utility::temp_dir();
         auto archive = cosim::utility::zip::archive(sspFile);
         archive.extract_all(temp_ssp_dir->path());
-- 
2.43.0


From 8655b8baac26787a18cc89da35913a27579d1e8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:20 +0000
Subject: [PATCH 65/80] fix: support large decimation factors without integer
 overflow

---
 src/cosim/algorithm/fixed_step_algorithm.cpp | 31 +++++++++++++-------
 1 file changed, 21 insertions(+), 10 deletions(-)

diff --git a/src/cosim/algorithm/fixed_step_algorithm.cpp b/src/cosim/algorithm/fixed_step_algorithm.cpp
index 4c88e59..8b832c6 100644
--- a/src/cosim/algorithm/fixed_step_algorithm.cpp
+++ b/src/cosim/algorithm/fixed_step_algorithm.cpp
@@ -11,7 +11,9 @@
 #include "cosim/utility/thread_pool.hpp"
 
 #include <algorithm>
+#include <cstdint>
 #include <cstdlib>
+#include <limits>
 #include <numeric>
 #include <sstream>
 #include <unordered_map>
@@ -23,14 +25,14 @@ namespace cosim
 namespace
 {
 
-int calculate_decimation_factor(
+std::int64_t calculate_decimation_factor(
     std::string_view name,
     duration baseStepSize,
     duration simulatorStepSize)
 {
     if (simulatorStepSize == duration::zero()) return 1;
     const auto result = std::div(simulatorStepSize.count(), baseStepSize.count());
-    const int factor = std::max<int>(1, static_cast<int>(result.quot));
+    const auto factor = std::max<std::int64_t>(1, result.quot);
     if (result.rem > 0 || result.quot < 1) {
         duration actualStepSize = baseStepSize * factor;
         const auto startTime = time_point();
@@ -43,6 +45,15 @@ int calculate_decimation_factor(
     return factor;
 }
 
+// Like `std::lcm()`, but returns the largest possible value (i.e., a step
+// number which is never reached) if the result isn't representable.
+std::int64_t common_multiple(std::int64_t a, std::int64_t b)
+{
+    const auto q = a / std::gcd(a, b);
+    constexpr auto max = std::numeric_limits<std::int64_t>::max();
+    return q > max / b ? max : q * b;
+}
+
 } // namespace
 
 
@@ -263,7 +274,7 @@ private:
     struct simulator_info
     {
         simulator* sim;
-        int decimationFactor = 1;
+        std::int64_t decimationFactor = 1;
         step_result stepResult;
         std::vector<connection_ss> outgoingSimConnections;
         std::vector<connection_sf> outgoingFunConnections;
@@ -272,7 +283,7 @@ private:
     struct function_info
     {
         function* fun;
-        int decimationFactor = 1;
+        std::int64_t decimationFactor = 1;
         std::vector<connection_fs> outgoingSimConnections;
     };
 
@@ -329,9 +340,9 @@ private:
         f.decimationFactor = std::accumulate(
             f.outgoingSimConnections.begin(),
             f.outgoingSimConnections.end(),
-            1,
-            [&](int current, const auto& connection) {
-                return std::lcm(
+            std::int64_t(1),
+            [&](std::int64_t current, const auto& connection) {
+                return common_multiple(
                     current,
                     simulators_.at(connection.target.simulator).decimationFactor);
             });
@@ -361,7 +372,7 @@ private:
         for (const auto& c : connections) {
             const auto sdf = simulators_.at(c.source.simulator).decimationFactor;
             const auto tdf = simulators_.at(c.target.simulator).decimationFactor;
-            if (stepCounter_ % std::lcm(sdf, tdf) == 0) {
+            if (stepCounter_ % common_multiple(sdf, tdf) == 0) {
                 transfer_variable(c);
             }
         }
@@ -372,7 +383,7 @@ private:
         for (const auto& c : connections) {
             const auto sdf = simulators_.at(c.source.simulator).decimationFactor;
             const auto tdf = functions_.at(c.target.function).decimationFactor;
-            if (stepCounter_ % std::lcm(sdf, tdf) == 0) {
+            if (stepCounter_ % common_multiple(sdf, tdf) == 0) {
                 transfer_variable(c);
             }
         }
@@ -383,7 +394,7 @@ private:
         for (const auto& c : connections) {
             const auto sdf = functions_.at(c.source.function).decimationFactor;
             const auto tdf = simulators_.at(c.target.simulator).decimationFactor;
-            if (stepCounter_ % std::lcm(sdf, tdf) == 0) {
+            if (stepCounter_ % common_multiple(sdf, tdf) == 0) {
                 transfer_variable(c);
             }
         }
-- 
2.43.0


From 172633605a6933aa7521a72dac78924f7bdc7c9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:28:28 +0000
Subject: [PATCH 66/80] fix: free the FMI Library handle when an FMU turns out
 not to support co-simulation

---
 src/cosim/fmi/v1/fmu.cpp | 6 ++++++
 src/cosim/fmi/v2/fmu.cpp | 6 ++++++
 2 files changed, 12 insertions(+)

diff --git a/src/cosim/fmi/v1/fmu.cpp b/src/cosim/fmi/v1/fmu.cpp
index f7fc72c..e515e92 100644
--- a/src/cosim/fmi/v1/fmu.cpp
+++ b/src/cosim/fmi/v1/fmu.cpp
@@ -50,6 +50,11 @@ fmu::fmu(
             make_error_code(errc::bad_file),
             importer->last_error_message());
     }
+    // The destructor will not be called if the rest of this function throws.
+    bool constructed = false;
+    const auto freeHandleOnFailure = gsl::finally([&]() {
+        if (!constructed) fmi1_import_free(handle_);
+    });
     const auto fmuKind = fmi1_import_get_fmu_kind(handle_);
     if (fmuKind != fmi1_fmu_kind_enu_cs_standalone &&
         fmuKind != fmi1_fmu_kind_enu_cs_tool) {
@@ -79,6 +84,7 @@ fmu::fmu(
                 << vd.name << " will be ignored";
         }
     }
+    constructed = true;
 }
 
 
diff --git a/src/cosim/fmi/v2/fmu.cpp b/src/cosim/fmi/v2/fmu.cpp
index 7267c38..9eecc03 100644
--- a/src/cosim/fmi/v2/fmu.cpp
+++ b/src/cosim/fmi/v2/fmu.cpp
@@ -50,6 +50,11 @@ fmu::fmu(
             make_error_code(errc::bad_file),
             importer->last_error_message());
     }
+    // The destructor will not be called if the rest of this function throws.
+    bool constructed = false;
+    const auto freeHandleOnFailure = gsl::finally([&]() {
+        if (!constructed) fmi2_import_free(handle_);
+    });
     const auto fmuKind = fmi2_import_get_fmu_kind(handle_);
     if (!(fmuKind & fmi2_fmu_kind_cs)) {
         throw error(
@@ -78,6 +83,7 @@ fmu::fmu(
                 << vd.name << " will be ignored";
         }
     }
+    constructed = true;
 }
 
 
-- 
2.43.0


From f270d50c2a0a88cdddf77eb1f86314205b46fd32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:28:32 +0000
Subject: [PATCH 67/80] fix: do not use an FMU's cache directory if its
 unpacking was cut short

---
 src/cosim/fmi/importer.cpp | 24 ++++++++++++++----------
 1 file changed, 14 insertions(+), 10 deletions(-)

diff --git a/src/cosim/fmi/importer.cpp b/src/cosim/fmi/importer.cpp
index 9e4fa90..b92100b 100644
--- a/src/cosim/fmi/importer.cpp
+++ b/src/cosim/fmi/importer.cpp
@@ -20,7 +20,9 @@
 
 #include <cstdlib>
 #include <cstring>
+#include <fstream>
 #include <new>
+#include <system_error>
 
 
 namespace cosim
@@ -196,16 +198,18 @@ std::shared_ptr<fmu> importer::import(const cosim::filesystem::path& fmuPath)
     auto fmuUnpackDir = fileCache_->get_directory_rw(guidStr);
 
     // Unzip the entire FMU if necessary.
-    const auto modelDescriptionPath = fmuUnpackDir->path() / "modelDescription.xml";
-    if (is_outdated(modelDescriptionPath, fmuPath)) {
-        try {
-            zip.extract_all(fmuUnpackDir->path());
-        } catch (...) {
-            // Remove model description again, so we don't erroneously think
-            // that the unpacking was successful the next time we try it.
-            std::error_code ignoredError;
-            cosim::filesystem::remove(modelDescriptionPath, ignoredError);
-            throw;
+    //
+    // A marker file, which is present only when everything has been unpacked,
+    // keeps us from using the results of an unpacking that failed halfway or
+    // whose process died.
+    const auto markerPath = fmuUnpackDir->path() / ".cosim_unpacked";
+    if (is_outdated(markerPath, fmuPath)) {
+        cosim::filesystem::remove(markerPath);
+        zip.extract_all(fmuUnpackDir->path());
+        if (!std::ofstream(markerPath.string())) {
+            throw std::system_error(
+                make_error_code(std::errc::io_error),
+                markerPath.string());
         }
     }
 
-- 
2.43.0


From 609623bdb28be82bc53687716d2cfd0dcb567b17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:28:35 +0000
Subject: [PATCH 68/80] fix: do not require exclusive access to the cache for
 an FMU which is already unpacked

---
 src/cosim/fmi/importer.cpp | 71 +++++++++++++++++++++++++++-----------
 1 file changed, 51 insertions(+), 20 deletions(-)

diff --git a/src/cosim/fmi/importer.cpp b/src/cosim/fmi/importer.cpp
index b92100b..71e48de 100644
--- a/src/cosim/fmi/importer.cpp
+++ b/src/cosim/fmi/importer.cpp
@@ -22,6 +22,7 @@
 #include <cstring>
 #include <fstream>
 #include <new>
+#include <stdexcept>
 #include <system_error>
 
 
@@ -157,6 +158,52 @@ bool is_outdated(
         cosim::filesystem::last_write_time(comparator) > cosim::filesystem::last_write_time(file);
 }
 
+// The name of a file which is only present in an FMU's cache directory when
+// the FMU has been unpacked in its entirety.  It keeps us from using the
+// results of an unpacking that failed halfway or whose process died.
+constexpr auto unpackedMarkerName = ".cosim_unpacked";
+
+// Acquires read-only access to the cache directory for the given FMU, or
+// returns null if the directory doesn't hold an up-to-date, unpacked FMU.
+//
+// This way, we don't need exclusive access to a directory (which others may be
+// using for a long time) unless we're going to modify it.
+std::unique_ptr<file_cache::directory_ro> get_unpacked_fmu(
+    file_cache& cache,
+    const std::string& key,
+    const cosim::filesystem::path& fmuPath)
+{
+    std::unique_ptr<file_cache::directory_ro> dir;
+    try {
+        dir = cache.get_directory_ro(key);
+    } catch (const std::logic_error&) {
+        // The key doesn't exist in the cache.
+        return nullptr;
+    }
+    if (is_outdated(dir->path() / unpackedMarkerName, fmuPath)) return nullptr;
+    return dir;
+}
+
+// Unpacks an FMU into the cache directory for the given key, unless someone
+// else has just done it.
+void unpack_fmu(
+    file_cache& cache,
+    const std::string& key,
+    const cosim::filesystem::path& fmuPath,
+    const cosim::utility::zip::archive& zip)
+{
+    const auto dir = cache.get_directory_rw(key);
+    const auto markerPath = dir->path() / unpackedMarkerName;
+    if (!is_outdated(markerPath, fmuPath)) return;
+    cosim::filesystem::remove(markerPath);
+    zip.extract_all(dir->path());
+    if (!std::ofstream(markerPath.string())) {
+        throw std::system_error(
+            make_error_code(std::errc::io_error),
+            markerPath.string());
+    }
+}
+
 } // namespace
 
 
@@ -195,28 +242,12 @@ std::shared_ptr<fmu> importer::import(const cosim::filesystem::path& fmuPath)
     guidStr.erase(std::remove(guidStr.begin(), guidStr.end(), '{'), guidStr.end());
     guidStr.erase(std::remove(guidStr.begin(), guidStr.end(), '}'), guidStr.end());
 
-    auto fmuUnpackDir = fileCache_->get_directory_rw(guidStr);
-
-    // Unzip the entire FMU if necessary.
-    //
-    // A marker file, which is present only when everything has been unpacked,
-    // keeps us from using the results of an unpacking that failed halfway or
-    // whose process died.
-    const auto markerPath = fmuUnpackDir->path() / ".cosim_unpacked";
-    if (is_outdated(markerPath, fmuPath)) {
-        cosim::filesystem::remove(markerPath);
-        zip.extract_all(fmuUnpackDir->path());
-        if (!std::ofstream(markerPath.string())) {
-            throw std::system_error(
-                make_error_code(std::errc::io_error),
-                markerPath.string());
-        }
+    auto fmuUnpackDirRO = get_unpacked_fmu(*fileCache_, guidStr, fmuPath);
+    if (!fmuUnpackDirRO) {
+        unpack_fmu(*fileCache_, guidStr, fmuPath, zip);
+        fmuUnpackDirRO = fileCache_->get_directory_ro(guidStr);
     }
 
-    // Drop R/W privileges and acquire read-only access to FMU cache directory
-    fmuUnpackDir.reset();
-    auto fmuUnpackDirRO = fileCache_->get_directory_ro(guidStr);
-
     // Create and return an `fmu` object.
     auto fmuObj = minModelDesc.fmiVersion == fmi_version::v1_0
         ? std::shared_ptr<fmu>(new v1::fmu(shared_from_this(), std::move(fmuUnpackDirRO)))
-- 
2.43.0


From 82d48ddb6810c0e2066115d94fd4545f721f71c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:14:56 +0000
Subject: [PATCH 69/80] fix: leave model URIs of other schemes unchanged in the
 proxyfmu resolver

---
 src/cosim/proxy/proxy_uri_sub_resolver.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cosim/proxy/proxy_uri_sub_resolver.cpp b/src/cosim/proxy/proxy_uri_sub_resolver.cpp
index 1500741..6aa0ecb 100644
--- a/src/cosim/proxy/proxy_uri_sub_resolver.cpp
+++ b/src/cosim/proxy/proxy_uri_sub_resolver.cpp
@@ -27,7 +27,7 @@ std::shared_ptr<cosim::model> cosim::proxy::proxy_uri_sub_resolver::lookup_model
 {
     const auto& mur = modelUriReference;
     const auto query = mur.query();
-    if (query) {
+    if (query && mur.scheme() && *mur.scheme() == "proxyfmu") {
         if (query->find("file=file:///") < query->size()) {
             const auto newQuery = "file=" + std::string(query->substr(13));
             return model_uri_sub_resolver::lookup_model(
-- 
2.43.0


From b11802d1978ce31fc90aae1cba99f437301f6e35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:14:59 +0000
Subject: [PATCH 70/80] fix: support IPv6 addresses and refuse invalid ports in
 proxyfmu URIs

---
 src/cosim/proxy/proxy_uri_sub_resolver.cpp | 27 ++++++++++++++++------
 1 file changed, 20 insertions(+), 7 deletions(-)

diff --git a/src/cosim/proxy/proxy_uri_sub_resolver.cpp b/src/cosim/proxy/proxy_uri_sub_resolver.cpp
index 6aa0ecb..ed5515b 100644
--- a/src/cosim/proxy/proxy_uri_sub_resolver.cpp
+++ b/src/cosim/proxy/proxy_uri_sub_resolver.cpp
@@ -9,16 +9,29 @@
 #include <cosim/proxy/proxy_uri_sub_resolver.hpp>
 #include <cosim/proxy/remote_fmu.hpp>
 
+#include <charconv>
+
+
 std::pair<std::string, int> parse_authority(std::string_view auth)
 {
-    const auto colonIdx = auth.find(':');
-    if (colonIdx == std::string::npos) {
-        return {std::string(auth), -1};
-    } else {
-        const auto host = std::string(auth.substr(0, colonIdx));
-        const auto port = std::stoi(std::string(auth.substr(colonIdx + 1)));
-        return {host, port};
+    // IPv6 addresses contain colons, and are enclosed in brackets.
+    auto host = auth.substr(0, auth.find(':'));
+    auto rest = auth.substr(host.size());
+    if (!auth.empty() && auth.front() == '[') {
+        const auto end = auth.find(']');
+        COSIM_INPUT_CHECK(end != std::string_view::npos);
+        host = auth.substr(1, end - 1);
+        rest = auth.substr(end + 1);
     }
+    if (rest.empty()) return {std::string(host), -1};
+
+    COSIM_INPUT_CHECK(rest.front() == ':');
+    rest.remove_prefix(1);
+    int port = -1;
+    const auto result = std::from_chars(rest.data(), rest.data() + rest.size(), port);
+    COSIM_INPUT_CHECK(result.ec == std::errc() && result.ptr == rest.data() + rest.size());
+    COSIM_INPUT_CHECK(port > 0 && port <= 65535);
+    return {std::string(host), port};
 }
 
 std::shared_ptr<cosim::model> cosim::proxy::proxy_uri_sub_resolver::lookup_model(
-- 
2.43.0


From 7d23cf1a4377a2280f1b242545e629f741fc068a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:15:03 +0000
Subject: [PATCH 71/80] fix: resolve the file of a proxyfmu URI whether
 relative, absolute or a file URI

---
 src/cosim/proxy/proxy_uri_sub_resolver.cpp | 41 ++++++++++++++--------
 1 file changed, 27 insertions(+), 14 deletions(-)

diff --git a/src/cosim/proxy/proxy_uri_sub_resolver.cpp b/src/cosim/proxy/proxy_uri_sub_resolver.cpp
index ed5515b..bf30d6a 100644
--- a/src/cosim/proxy/proxy_uri_sub_resolver.cpp
+++ b/src/cosim/proxy/proxy_uri_sub_resolver.cpp
@@ -12,6 +12,9 @@
 #include <charconv>
 
 
+namespace
+{
+
 std::pair<std::string, int> parse_authority(std::string_view auth)
 {
     // IPv6 addresses contain colons, and are enclosed in brackets.
@@ -34,23 +37,33 @@ std::pair<std::string, int> parse_authority(std::string_view auth)
     return {std::string(host), port};
 }
 
+bool is_file_query(std::string_view query)
+{
+    return query.substr(0, 5) == "file=";
+}
+
+// The file may be given as a file URI or as a path.
+cosim::filesystem::path file_query_to_path(std::string_view query)
+{
+    const auto file = query.substr(5);
+    if (file.substr(0, 8) == "file:///") return cosim::file_uri_to_path(std::string(file));
+    return cosim::filesystem::path(cosim::percent_decode(file));
+}
+
+} // namespace
+
 std::shared_ptr<cosim::model> cosim::proxy::proxy_uri_sub_resolver::lookup_model(
     const cosim::uri& baseUri,
     const cosim::uri& modelUriReference)
 {
     const auto& mur = modelUriReference;
-    const auto query = mur.query();
-    if (query && mur.scheme() && *mur.scheme() == "proxyfmu") {
-        if (query->find("file=file:///") < query->size()) {
-            const auto newQuery = "file=" + std::string(query->substr(13));
-            return model_uri_sub_resolver::lookup_model(
-                baseUri, uri(mur.scheme(), mur.authority(), mur.path(), newQuery, mur.fragment()));
-        } else if (query->find("file=") < query->size()) {
-            const auto pathToAppend = cosim::file_uri_to_path(baseUri).parent_path().string();
-            const auto newQuery = "file=" + pathToAppend + "/" + std::string(query->substr(5));
-            return model_uri_sub_resolver::lookup_model(
-                baseUri, uri(mur.scheme(), mur.authority(), mur.path(), newQuery, mur.fragment()));
-        }
+    if (mur.scheme() && *mur.scheme() == "proxyfmu" && mur.query() && is_file_query(*mur.query())) {
+        // The file may be given relative to the base URI.
+        auto file = file_query_to_path(*mur.query());
+        if (file.is_relative()) file = cosim::file_uri_to_path(baseUri).parent_path() / file;
+        const auto newQuery = "file=" + percent_encode(file.generic_string(), "/:");
+        return model_uri_sub_resolver::lookup_model(
+            baseUri, uri(mur.scheme(), mur.authority(), mur.path(), newQuery, mur.fragment()));
     }
     return model_uri_sub_resolver::lookup_model(baseUri, mur);
 }
@@ -64,8 +77,8 @@ std::shared_ptr<cosim::model> cosim::proxy::proxy_uri_sub_resolver::lookup_model
 
     const auto auth = parse_authority(*modelUri.authority());
     const auto query = *modelUri.query();
-    if (query.substr(0, 5) == "file=") {
-        const auto file = cosim::filesystem::path(std::string(query.substr(5)));
+    if (is_file_query(query)) {
+        const auto file = file_query_to_path(query);
         if (!cosim::filesystem::exists(file)) {
             throw error(make_error_code(errc::bad_file), "No such file: " + file.string());
         }
-- 
2.43.0


From 413ab6b7d8bdc4ca369f9e285bcf9adb1c2109d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:15:07 +0000
Subject: [PATCH 72/80] fix: compute a remote slave's step length from the
 step's start, so that steps are contiguous

---
 src/cosim/proxy/remote_slave.cpp | 4 +---
 src/cosim/proxy/remote_slave.hpp | 1 -
 2 files changed, 1 insertion(+), 4 deletions(-)

diff --git a/src/cosim/proxy/remote_slave.cpp b/src/cosim/proxy/remote_slave.cpp
index 1144472..450f274 100644
--- a/src/cosim/proxy/remote_slave.cpp
+++ b/src/cosim/proxy/remote_slave.cpp
@@ -37,8 +37,6 @@ cosim::model_description cosim::proxy::remote_slave::model_description() const
 void cosim::proxy::remote_slave::setup(cosim::time_point startTime, std::optional<cosim::time_point> stopTime,
     std::optional<double> relativeTolerance)
 {
-    startTime_ = startTime;
-
     double start = to_double_time_point(startTime);
     double stop = to_double_time_point(stopTime.value_or(cosim::to_time_point(0)));
     double tolerance = relativeTolerance.value_or(0);
@@ -71,7 +69,7 @@ void cosim::proxy::remote_slave::end_simulation()
 
 cosim::step_result cosim::proxy::remote_slave::do_step(cosim::time_point currentTime, cosim::duration deltaT)
 {
-    auto status = slave_->step(to_double_time_point(currentTime), to_double_duration(deltaT, startTime_));
+    auto status = slave_->step(to_double_time_point(currentTime), to_double_duration(deltaT, currentTime));
     if (!status) {
         bad_status_throw("step");
     }
diff --git a/src/cosim/proxy/remote_slave.hpp b/src/cosim/proxy/remote_slave.hpp
index 4f02aac..7f4ddfc 100644
--- a/src/cosim/proxy/remote_slave.hpp
+++ b/src/cosim/proxy/remote_slave.hpp
@@ -63,7 +63,6 @@ public:
 
 private:
     bool terminated_;
-    cosim::time_point startTime_;
     std::unique_ptr<proxyfmu::fmi::slave> slave_;
     std::shared_ptr<const cosim::model_description> modelDescription_;
 };
-- 
2.43.0


From 9cf42b2f73cfe7b584d163371eb7402ecf44a7cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:15:10 +0000
Subject: [PATCH 73/80] fix: do not let remote_slave's destructor throw when
 the connection is lost

---
 src/cosim/proxy/remote_slave.cpp | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/cosim/proxy/remote_slave.cpp b/src/cosim/proxy/remote_slave.cpp
index 450f274..1f88bad 100644
--- a/src/cosim/proxy/remote_slave.cpp
+++ b/src/cosim/proxy/remote_slave.cpp
@@ -5,6 +5,7 @@
  */
 #include <cosim/error.hpp>
 #include <cosim/exception.hpp>
+#include <cosim/log/logger.hpp>
 #include <cosim/proxy/remote_slave.hpp>
 
 #include <utility>
@@ -202,6 +203,17 @@ void cosim::proxy::remote_slave::set_string_variables(gsl::span<const cosim::val
 
 cosim::proxy::remote_slave::~remote_slave()
 {
-    remote_slave::end_simulation();
-    slave_->freeInstance();
+    // These fail if the connection to the slave has been lost, for example.
+    try {
+        remote_slave::end_simulation();
+    } catch (const std::exception& e) {
+        BOOST_LOG_SEV(log::logger(), log::warning)
+            << "Failed to end simulation in remote slave: " << e.what();
+    }
+    try {
+        slave_->freeInstance();
+    } catch (const std::exception& e) {
+        BOOST_LOG_SEV(log::logger(), log::warning)
+            << "Failed to free remote slave: " << e.what();
+    }
 }
-- 
2.43.0


From 7695db52f3a475179972ad8f666216680065cd47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:15:14 +0000
Subject: [PATCH 74/80] fix: terminate a remote slave only if its simulation
 was started, and report failure to do so

---
 src/cosim/proxy/remote_slave.cpp | 12 ++++++++----
 src/cosim/proxy/remote_slave.hpp |  2 +-
 2 files changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/cosim/proxy/remote_slave.cpp b/src/cosim/proxy/remote_slave.cpp
index 1f88bad..88651bc 100644
--- a/src/cosim/proxy/remote_slave.cpp
+++ b/src/cosim/proxy/remote_slave.cpp
@@ -25,7 +25,7 @@ void bad_status_throw(const std::string& method)
 cosim::proxy::remote_slave::remote_slave(
     std::unique_ptr<proxyfmu::fmi::slave> slave,
     std::shared_ptr<const cosim::model_description> modelDescription)
-    : terminated_(false)
+    : simStarted_(false)
     , slave_(std::move(slave))
     , modelDescription_(std::move(modelDescription))
 { }
@@ -58,13 +58,17 @@ void cosim::proxy::remote_slave::start_simulation()
     if (!status) {
         bad_status_throw("exit_initialization_mode");
     }
+    simStarted_ = true;
 }
 
 void cosim::proxy::remote_slave::end_simulation()
 {
-    if (!terminated_) {
-        slave_->terminate();
-        terminated_ = true;
+    if (simStarted_) {
+        simStarted_ = false;
+        auto status = slave_->terminate();
+        if (!status) {
+            bad_status_throw("terminate");
+        }
     }
 }
 
diff --git a/src/cosim/proxy/remote_slave.hpp b/src/cosim/proxy/remote_slave.hpp
index 7f4ddfc..41c7c2d 100644
--- a/src/cosim/proxy/remote_slave.hpp
+++ b/src/cosim/proxy/remote_slave.hpp
@@ -62,7 +62,7 @@ public:
     ~remote_slave() override;
 
 private:
-    bool terminated_;
+    bool simStarted_;
     std::unique_ptr<proxyfmu::fmi::slave> slave_;
     std::shared_ptr<const cosim::model_description> modelDescription_;
 };
-- 
2.43.0


From 93980da16484ae8ed727ce39fa2ef0cf83f15fe1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:15:17 +0000
Subject: [PATCH 75/80] fix: recognise remote FMUs' calculated parameters, and
 report their version

---
 src/cosim/proxy/remote_fmu.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/cosim/proxy/remote_fmu.cpp b/src/cosim/proxy/remote_fmu.cpp
index b69764f..36aa82b 100644
--- a/src/cosim/proxy/remote_fmu.cpp
+++ b/src/cosim/proxy/remote_fmu.cpp
@@ -38,7 +38,7 @@ cosim::variable_causality get_causality(const proxyfmu::fmi::scalar_variable& v)
         return cosim::variable_causality::input;
     } else if (v.causality == "parameter") {
         return cosim::variable_causality::parameter;
-    } else if (v.causality == "calculated_parameter") {
+    } else if (v.causality == "calculated_parameter" || v.causality == "calculatedParameter") {
         return cosim::variable_causality::calculated_parameter;
     } else if (v.causality == "local") {
         return cosim::variable_causality::local;
@@ -71,6 +71,7 @@ std::unique_ptr<cosim::model_description> parse_model_description(const proxyfmu
     _md->author = md.author;
     _md->name = md.modelName;
     _md->description = md.description;
+    _md->version = md.version;
 
     for (auto& var : md.modelVariables) {
         cosim::variable_description vd;
-- 
2.43.0


From 04752110eb373f24a40981b69c2077c125447044 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:15:33 +0000
Subject: [PATCH 76/80] fix: leave absolute paths alone in the file query of
 model URIs in OSP configurations

---
 src/cosim/osp_config_parser.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/cosim/osp_config_parser.cpp b/src/cosim/osp_config_parser.cpp
index f3010dd..20b3496 100644
--- a/src/cosim/osp_config_parser.cpp
+++ b/src/cosim/osp_config_parser.cpp
@@ -1065,6 +1065,8 @@ cosim::filesystem::path file_query_uri_to_path(
         if (query->find("file=file:///") < query->size()) {
             return file_uri_to_path(std::string(query->substr(5)));
         }
+        const auto path = cosim::filesystem::path(percent_decode(query->substr(5)));
+        if (path.is_absolute()) return path;
         return file_uri_to_path(std::string(baseParentUri.view()) + "/" + std::string(query->substr(5)));
     }
     return file_uri_to_path(baseParentUri);
-- 
2.43.0


From 4508a91c1c15c2a1700317e3ea56d2c6773640d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:24:38 +0000
Subject: [PATCH 77/80] fix: report a variable as modified for as long as it
 has an input or an output modifier

---
 src/cosim/slave_simulator.cpp | 37 +++++++++++++++++++++++++----------
 1 file changed, 27 insertions(+), 10 deletions(-)

diff --git a/src/cosim/slave_simulator.cpp b/src/cosim/slave_simulator.cpp
index 9225765..ef29767 100644
--- a/src/cosim/slave_simulator.cpp
+++ b/src/cosim/slave_simulator.cpp
@@ -166,6 +166,12 @@ struct get_variable_cache
         modifiers[it->second] = m;
     }
 
+    bool has_modifier(value_reference r) const
+    {
+        const auto it = indexMapping.find(r);
+        return it != indexMapping.end() && modifiers[it->second];
+    }
+
     void run_modifiers(duration deltaT)
     {
         for (std::size_t i = 0; i < originalValues.size(); ++i) {
@@ -234,6 +240,11 @@ public:
         }
     }
 
+    bool has_modifier(value_reference r) const
+    {
+        return modifiers_.count(r) > 0;
+    }
+
     std::pair<gsl::span<value_reference>, gsl::span<const T>> modify_and_get(duration deltaT)
     {
         if (!hasRunModifiers_) {
@@ -445,7 +456,7 @@ public:
         std::function<double(double, duration)> modifier)
     {
         realSetCache_.set_modifier(ref, modifier);
-        set_modified_reference(modifiedRealVariables_, ref, modifier ? true : false);
+        update_modified_references(modifiedRealVariables_, ref, realSetCache_, realGetCache_);
     }
 
     void set_integer_input_modifier(
@@ -453,7 +464,7 @@ public:
         std::function<int(int, duration)> modifier)
     {
         integerSetCache_.set_modifier(ref, modifier);
-        set_modified_reference(modifiedIntegerVariables_, ref, modifier ? true : false);
+        update_modified_references(modifiedIntegerVariables_, ref, integerSetCache_, integerGetCache_);
     }
 
     void set_boolean_input_modifier(
@@ -461,7 +472,7 @@ public:
         std::function<bool(bool, duration)> modifier)
     {
         booleanSetCache_.set_modifier(ref, modifier);
-        set_modified_reference(modifiedBooleanVariables_, ref, modifier ? true : false);
+        update_modified_references(modifiedBooleanVariables_, ref, booleanSetCache_, booleanGetCache_);
     }
 
     void set_string_input_modifier(
@@ -469,7 +480,7 @@ public:
         std::function<std::string(std::string_view, duration)> modifier)
     {
         stringSetCache_.set_modifier(ref, modifier);
-        set_modified_reference(modifiedStringVariables_, ref, modifier ? true : false);
+        update_modified_references(modifiedStringVariables_, ref, stringSetCache_, stringGetCache_);
     }
 
     void set_real_output_modifier(
@@ -477,7 +488,7 @@ public:
         std::function<double(double, duration)> modifier)
     {
         realGetCache_.set_modifier(ref, modifier);
-        set_modified_reference(modifiedRealVariables_, ref, modifier ? true : false);
+        update_modified_references(modifiedRealVariables_, ref, realSetCache_, realGetCache_);
     }
 
     void set_integer_output_modifier(
@@ -485,7 +496,7 @@ public:
         std::function<int(int, duration)> modifier)
     {
         integerGetCache_.set_modifier(ref, modifier);
-        set_modified_reference(modifiedIntegerVariables_, ref, modifier ? true : false);
+        update_modified_references(modifiedIntegerVariables_, ref, integerSetCache_, integerGetCache_);
     }
 
     void set_boolean_output_modifier(
@@ -493,7 +504,7 @@ public:
         std::function<bool(bool, duration)> modifier)
     {
         booleanGetCache_.set_modifier(ref, modifier);
-        set_modified_reference(modifiedBooleanVariables_, ref, modifier ? true : false);
+        update_modified_references(modifiedBooleanVariables_, ref, booleanSetCache_, booleanGetCache_);
     }
 
     void set_string_output_modifier(
@@ -501,7 +512,7 @@ public:
         std::function<std::string(std::string_view, duration)> modifier)
     {
         stringGetCache_.set_modifier(ref, modifier);
-        set_modified_reference(modifiedStringVariables_, ref, modifier ? true : false);
+        update_modified_references(modifiedStringVariables_, ref, stringSetCache_, stringGetCache_);
     }
 
     std::unordered_set<value_reference>& get_modified_real_variables()
@@ -627,9 +638,15 @@ private:
         return *it;
     }
 
-    void set_modified_reference(std::unordered_set<value_reference>& modifiedRefs, value_reference& ref, bool modifier)
+    // A variable may have both an input and an output modifier.
+    template<typename T>
+    void update_modified_references(
+        std::unordered_set<value_reference>& modifiedRefs,
+        value_reference ref,
+        const set_variable_cache<T>& setCache,
+        const get_variable_cache<T>& getCache)
     {
-        if (modifier) {
+        if (setCache.has_modifier(ref) || getCache.has_modifier(ref)) {
             modifiedRefs.insert(ref);
         } else {
             modifiedRefs.erase(ref);
-- 
2.43.0


From da930c271b01d4ede1e5efeeb952cce9a4825633 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:54:10 +0000
Subject: [PATCH 78/80] fix: Quote text in the log metadata file which would
 not be valid YAML as it is

---
 src/cosim/observer/file_observer.cpp | 48 ++++++++++++++++++++++++----
 1 file changed, 41 insertions(+), 7 deletions(-)

diff --git a/src/cosim/observer/file_observer.cpp b/src/cosim/observer/file_observer.cpp
index b43a0f7..5f82708 100644
--- a/src/cosim/observer/file_observer.cpp
+++ b/src/cosim/observer/file_observer.cpp
@@ -66,6 +66,36 @@ std::string csv_field(std::string_view text)
     return quoted;
 }
 
+// Quotes text which, as it is, would not be a single-line YAML scalar with that content.
+std::string yaml_scalar(std::string_view text)
+{
+    const bool special = text.empty() ||
+        std::string_view(" -?:,[]{}#&*!|>'\"%@`~").find(text.front()) != std::string_view::npos ||
+        text.back() == ' ' || text.back() == ':' ||
+        text.find(": ") != std::string_view::npos ||
+        text.find(" #") != std::string_view::npos ||
+        std::any_of(text.begin(), text.end(), [](unsigned char c) { return c < 0x20 || c == 0x7f; });
+    if (!special) return std::string(text);
+
+    constexpr auto hexDigits = "0123456789abcdef";
+    std::string quoted = "\"";
+    for (const char c : text) {
+        const auto byte = static_cast<unsigned char>(c);
+        if (c == '"' || c == '\\') {
+            quoted += '\\';
+            quoted += c;
+        } else if (byte < 0x20 || byte == 0x7f) {
+            quoted += "\\x";
+            quoted += hexDigits[byte >> 4];
+            quoted += hexDigits[byte & 0xf];
+        } else {
+            quoted += c;
+        }
+    }
+    quoted += '"';
+    return quoted;
+}
+
 } // namespace
 
 
@@ -272,7 +302,7 @@ private:
     void write_variable_metadata(std::stringstream& ss, std::vector<variable_description>& variables) const
     {
         for (const auto& v : variables) {
-            ss << "  - " << std::setw(keyWidth_) << "name:" << v.name << std::endl
+            ss << "  - " << std::setw(keyWidth_) << "name:" << yaml_scalar(v.name) << std::endl
                << "    " << std::setw(keyWidth_) << "reference:" << v.reference << std::endl
                << "    " << std::setw(keyWidth_) << "type:" << v.type << std::endl
                << "    " << std::setw(keyWidth_) << "causality:" << v.causality << std::endl
@@ -280,7 +310,11 @@ private:
 
             if (v.start.has_value()) {
                 ss << "    " << std::setw(keyWidth_) << "start value:";
-                std::visit([&](const auto& val) { ss << val << std::endl; }, v.start.value());
+                if (const auto str = std::get_if<std::string>(&*v.start)) {
+                    ss << yaml_scalar(*str) << std::endl;
+                } else {
+                    std::visit([&](const auto& val) { ss << val << std::endl; }, *v.start);
+                }
             }
         }
     }
@@ -309,11 +343,11 @@ private:
         auto md = observable_->model_description();
 
         ss << std::left
-           << std::setw(keyWidth_) << "name:" << md.name << std::endl
-           << std::setw(keyWidth_) << "uuid:" << md.uuid << std::endl
-           << std::setw(keyWidth_) << "description:" << md.description << std::endl
-           << std::setw(keyWidth_) << "author:" << md.author << std::endl
-           << std::setw(keyWidth_) << "version:" << md.version << std::endl;
+           << std::setw(keyWidth_) << "name:" << yaml_scalar(md.name) << std::endl
+           << std::setw(keyWidth_) << "uuid:" << yaml_scalar(md.uuid) << std::endl
+           << std::setw(keyWidth_) << "description:" << yaml_scalar(md.description) << std::endl
+           << std::setw(keyWidth_) << "author:" << yaml_scalar(md.author) << std::endl
+           << std::setw(keyWidth_) << "version:" << yaml_scalar(md.version) << std::endl;
 
         ss << "variables:" << std::endl;
 
-- 
2.43.0


From f9c4a10e0b7f60d4e4eb3067cf7f6f2c6e6ab1fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:27:42 +0000
Subject: [PATCH 79/80] fix: don't start billions of threads when the number of
 processors is unknown

---
 src/cosim/algorithm/fixed_step_algorithm.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cosim/algorithm/fixed_step_algorithm.cpp b/src/cosim/algorithm/fixed_step_algorithm.cpp
index 8b832c6..5d91a10 100644
--- a/src/cosim/algorithm/fixed_step_algorithm.cpp
+++ b/src/cosim/algorithm/fixed_step_algorithm.cpp
@@ -469,7 +469,7 @@ private:
     std::unordered_map<simulator_index, simulator_info> simulators_;
     std::unordered_map<function_index, function_info> functions_;
     int64_t stepCounter_ = 0;
-    unsigned int max_threads_ = std::thread::hardware_concurrency() - 1;
+    unsigned int max_threads_ = std::max(1u, std::thread::hardware_concurrency()) - 1;
     utility::thread_pool pool_;
 };
 
-- 
2.43.0


From fdeabdff31a30e86acc2b045c441b77b4bcc50b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:27:54 +0000
Subject: [PATCH 80/80] fix: tolerate improper percent-encoding in the sources
 of parameter bindings

---
 src/cosim/ssp/ssp_parser.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cosim/ssp/ssp_parser.cpp b/src/cosim/ssp/ssp_parser.cpp
index 1aed1c3..9e69043 100644
--- a/src/cosim/ssp/ssp_parser.cpp
+++ b/src/cosim/ssp/ssp_parser.cpp
@@ -114,7 +114,7 @@ cosim::filesystem::path resolve_source(const cosim::filesystem::path& ssdPath, c
             const auto path = file_uri_to_path(sourceUri);
             if (cosim::filesystem::exists(path)) return path;
         }
-    } catch (const std::invalid_argument&) {
+    } catch (const std::logic_error&) {
     }
     return ssdPath.parent_path() / source;
 }
-- 
2.43.0

