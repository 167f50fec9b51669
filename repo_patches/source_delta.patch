From 2b50f08f284661c0610f7ba1552dd8eeb8b3ce88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:24 +0000
Subject: [PATCH 01/26] fix: mark a printf-style message of exactly the maximum
 size as truncated

---
 src/logcapture.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/logcapture.cpp b/src/logcapture.cpp
index ad448c9..d4f138b 100644
--- a/src/logcapture.cpp
+++ b/src/logcapture.cpp
@@ -105,7 +105,7 @@ void LogCapture::capturef(const char* printf_like_message, ...) {
    if (nbrcharacters < 0) {
       stream() << "\n\tERROR LOG MSG NOTIFICATION: Failure to successfully parse the message";
       stream() << '"' << printf_like_message << '"' << std::endl;
-   } else if (nbrcharacters > finished_message_len) {
+   } else if (nbrcharacters >= finished_message_len) {
       stream() << finished_message << kTruncatedWarningText;
    } else {
       stream() << finished_message;
-- 
2.43.0


From a830f0e0b59989dc181800482c37a1eb6a3f2dbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:24 +0000
Subject: [PATCH 02/26] fix: LogMessage assignment transfers the file path and
 the details formatter

---
 src/g3log/logmessage.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/g3log/logmessage.hpp b/src/g3log/logmessage.hpp
index 9fc2d23..6898d56 100644
--- a/src/g3log/logmessage.hpp
+++ b/src/g3log/logmessage.hpp
@@ -116,9 +116,11 @@ namespace g3 {
 
       friend void swap(LogMessage& first, LogMessage& second) {
          using std::swap;
+         swap(first._logDetailsToStringFunc, second._logDetailsToStringFunc);
          swap(first._timestamp, second._timestamp);
          swap(first._call_thread_id, second._call_thread_id);
          swap(first._file, second._file);
+         swap(first._file_path, second._file_path);
          swap(first._line, second._line);
          swap(first._function, second._function);
          swap(first._level, second._level);
-- 
2.43.0


From 5d0a9eddbcdee554ae2629402354aa11dfa0db77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:24 +0000
Subject: [PATCH 03/26] fix: querying an unregistered log level does not
 register it

---
 src/loglevels.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/loglevels.cpp b/src/loglevels.cpp
index a148e8f..5e5de24 100644
--- a/src/loglevels.cpp
+++ b/src/loglevels.cpp
@@ -119,8 +119,9 @@ namespace g3 {
    bool logLevel(const LEVELS& log_level) {
 #ifdef G3_DYNAMIC_LOGGING
       int level = log_level.value;
-      bool status = internal::g_log_levels[level].status.value();
-      return status;
+      // lookup only: an unknown level must not be added to the map by (concurrent) LOG calls
+      const auto it = internal::g_log_levels.find(level);
+      return it != internal::g_log_levels.end() && it->second.status.value();
 #else
       return true;
 #endif
-- 
2.43.0


From 515b5b62a3632718be415c7ca3762aada47f506d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:24 +0000
Subject: [PATCH 04/26] fix: enabling and disabling levels from several threads
 is not a data race

---
 src/loglevels.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/loglevels.cpp b/src/loglevels.cpp
index 5e5de24..ef3a776 100644
--- a/src/loglevels.cpp
+++ b/src/loglevels.cpp
@@ -63,7 +63,11 @@ namespace g3 {
       void set(LEVELS level, bool enabled) {
          auto it = internal::g_log_levels.find(level.value);
          if (it != internal::g_log_levels.end()) {
-            internal::g_log_levels[level.value] = {level, enabled};
+            // the status is atomic, the level text is not: only touch it when it really changes
+            if (it->second.level != level) {
+               it->second.level = level;
+            }
+            it->second.status = enabled;
          }
       }
 
-- 
2.43.0


From c4c1f067a3f8d5059b0171df0e8ab260e52567b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:45 +0000
Subject: [PATCH 05/26] fix: logging while a fatal event shuts the logger down
 does not use a null logger

---
 src/g3log.cpp | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/g3log.cpp b/src/g3log.cpp
index a5bfa52..1a8dd8e 100644
--- a/src/g3log.cpp
+++ b/src/g3log.cpp
@@ -34,7 +34,7 @@
 
 namespace {
    std::once_flag g_initialize_flag;
-   g3::LogWorker* g_logger_instance = nullptr;  // instantiated and OWNED somewhere else (main)
+   std::atomic<g3::LogWorker*> g_logger_instance{nullptr};  // instantiated and OWNED somewhere else (main)
    std::mutex g_logging_init_mutex;
 
    std::unique_ptr<g3::LogMessage> g_first_uninitialized_msg = {nullptr};
@@ -192,7 +192,9 @@ namespace g3 {
             */
       void pushMessageToLogger(LogMessagePtr incoming) {  // todo rename to Push SavedMessage To Worker
          // Uninitialized messages are ignored but does not CHECK/crash the logger
-         if (!internal::isLoggingInitialized()) {
+         // load once: the logger can be shut down (fatal event) between a check and the use
+         LogWorker* logger = g_logger_instance;
+         if (nullptr == logger) {
             std::call_once(g_set_first_uninitialized_flag, [&] {
                g_first_uninitialized_msg = incoming.release();
                std::string err = {"LOGGER NOT INITIALIZED:\n\t\t"};
@@ -205,7 +207,7 @@ namespace g3 {
          }
 
          // logger is initialized
-         g_logger_instance->save(incoming);
+         logger->save(incoming);
       }
 
       /** Fatal call saved to logger. This will trigger SIGABRT or other fatal signal
@@ -214,7 +216,8 @@ namespace g3 {
           * message and kills the software with the fatal signal.
           */
       void pushFatalMessageToLogger(FatalMessagePtr message) {
-         if (!isLoggingInitialized()) {
+         LogWorker* logger = g_logger_instance;
+         if (nullptr == logger) {
             std::ostringstream error;
             error << "FATAL CALL but logger is NOT initialized\n"
                   << "CAUSE: " << message.get()->reason()
@@ -223,7 +226,7 @@ namespace g3 {
             std::cerr << error.str() << std::flush;
             internal::exitWithDefaultSignalHandler(message.get()->_level, message.get()->_signal_id);
          }
-         g_logger_instance->fatal(message);
+         logger->fatal(message);
          while (shouldBlockForFatalHandling()) {
             std::this_thread::sleep_for(std::chrono::seconds(1));
          }
-- 
2.43.0


From 0f45204f846df69861b16a38be3755f209054205 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:45 +0000
Subject: [PATCH 06/26] fix: the fatal pre-logging hook is taken atomically by
 the first of several fatal events

---
 src/g3log.cpp | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/src/g3log.cpp b/src/g3log.cpp
index 1a8dd8e..df20ea6 100644
--- a/src/g3log.cpp
+++ b/src/g3log.cpp
@@ -41,6 +41,7 @@ namespace {
    std::once_flag g_set_first_uninitialized_flag;
    std::once_flag g_save_first_uninitialized_flag;
    const std::function<void(void)> g_pre_fatal_hook_that_does_nothing = [] { /*does nothing */ };
+   std::mutex g_fatal_pre_logging_hook_mutex;
    std::function<void(void)> g_fatal_pre_logging_hook;
 
    std::atomic<size_t> g_fatal_hook_recursive_counter = {0};
@@ -89,8 +90,7 @@ namespace g3 {
    *     so please call this function, if you ever need to, after initializeLogging(...)
    */
    void setFatalPreLoggingHook(std::function<void(void)> pre_fatal_hook) {
-      static std::mutex m;
-      std::lock_guard<std::mutex> lock(m);
+      std::lock_guard<std::mutex> lock(g_fatal_pre_logging_hook_mutex);
       g_fatal_pre_logging_hook = pre_fatal_hook;
    }
 
@@ -155,10 +155,13 @@ namespace g3 {
       }
 
       void saveFatalMessage(const char* stack_trace, g3::LogMessagePtr& message, int& fatal_signal) {
-         auto fatalhook = g_fatal_pre_logging_hook;
-         // In case the fatal_pre logging actually will cause a crash in its turn
-         // let's not do recursive crashing!
-         setFatalPreLoggingHook(g_pre_fatal_hook_that_does_nothing);
+         auto fatalhook = g_pre_fatal_hook_that_does_nothing;
+         {
+            // In case the fatal_pre logging actually will cause a crash in its turn
+            // let's not do recursive crashing! Taking the hook is atomic: it is called at most once
+            std::lock_guard<std::mutex> lock(g_fatal_pre_logging_hook_mutex);
+            fatalhook.swap(g_fatal_pre_logging_hook);
+         }
          ++g_fatal_hook_recursive_counter;  // thread safe counter
          // "benign" race here. If two threads crashes, with recursive crashes
          // then it's possible that the "other" fatal stack trace will be shown
-- 
2.43.0


From 002fb64769bf4f1bc3ffbb098b70297f08baae0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:45 +0000
Subject: [PATCH 07/26] fix: a fatal event before initializeLogging is reported
 instead of throwing bad_function_call

---
 src/g3log.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/g3log.cpp b/src/g3log.cpp
index df20ea6..e0295d1 100644
--- a/src/g3log.cpp
+++ b/src/g3log.cpp
@@ -42,7 +42,7 @@ namespace {
    std::once_flag g_save_first_uninitialized_flag;
    const std::function<void(void)> g_pre_fatal_hook_that_does_nothing = [] { /*does nothing */ };
    std::mutex g_fatal_pre_logging_hook_mutex;
-   std::function<void(void)> g_fatal_pre_logging_hook;
+   std::function<void(void)> g_fatal_pre_logging_hook = g_pre_fatal_hook_that_does_nothing;
 
    std::atomic<size_t> g_fatal_hook_recursive_counter = {0};
 }  // namespace
-- 
2.43.0


From e295c154f422b2bfe13a1574248b0c9fa12ea4bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:45 +0000
Subject: [PATCH 08/26] fix: installing the crash handler twice keeps the
 original signal actions

---
 src/crashhandler_unix.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/crashhandler_unix.cpp b/src/crashhandler_unix.cpp
index 9c40449..2031767 100644
--- a/src/crashhandler_unix.cpp
+++ b/src/crashhandler_unix.cpp
@@ -102,7 +102,8 @@ namespace {
          if (sigaction(sig_pair.first, &action, &old_action) < 0) {
             std::string signalerror = "sigaction - " + sig_pair.second;
             perror(signalerror.c_str());
-         } else {
+         } else if (old_action.sa_sigaction != &signalHandler) {
+            // a repeated installation must not lose the original action
             gSavedSigActions[sig_pair.first] = old_action;
          }
       }
-- 
2.43.0


From d48f2eea04c49a1f7404893dd21ca5ac5ddc3e83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:59 +0000
Subject: [PATCH 09/26] fix: formatting times before the epoch does not throw

---
 src/time.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/time.cpp b/src/time.cpp
index a94d394..e46d153 100644
--- a/src/time.cpp
+++ b/src/time.cpp
@@ -50,7 +50,8 @@ namespace g3 {
       // 1 ns --> 000000001
       std::string to_string(const g3::system_time_point& ts, Fractional fractional) {
          auto duration = ts.time_since_epoch();
-         auto sec_duration = std::chrono::duration_cast<std::chrono::seconds>(duration);
+         // floor: the fraction is never negative, also for times before the epoch
+         auto sec_duration = std::chrono::floor<std::chrono::seconds>(duration);
          duration -= sec_duration;
          auto ns = std::chrono::duration_cast<std::chrono::nanoseconds>(duration).count();
 
@@ -144,7 +145,7 @@ namespace g3 {
 
    std::string localtime_formatted(const g3::system_time_point& ts, const std::string& time_format) {
       auto format_buffer = internal::localtime_formatted_fractions(ts, time_format);
-      auto time_point = std::chrono::system_clock::to_time_t(ts);
+      auto time_point = std::chrono::system_clock::to_time_t(std::chrono::floor<std::chrono::seconds>(ts));
       std::tm t = localtime(time_point);
       return g3::put_time(&t, format_buffer.c_str());  // format example: //"%Y/%m/%d %H:%M:%S");
    }
-- 
2.43.0


From 5f8a320fb9f60cbe7e54188c49c4ba483447dd9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:59 +0000
Subject: [PATCH 10/26] fix: an escaped percent sign in front of an f is not a
 fraction identifier

---
 src/time.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/time.cpp b/src/time.cpp
index e46d153..73a582a 100644
--- a/src/time.cpp
+++ b/src/time.cpp
@@ -86,6 +86,15 @@ namespace g3 {
          for (size_t pos = 0;
               (pos = format_buffer.find(g3::internal::kFractionalIdentier, pos)) != std::string::npos;
               pos += g3::internal::kFractionalIdentierSize + identifierExtraSize) {
+            // an escaped percent sign, i.e. the second '%' of a "%%", does not start an identifier
+            size_t percents = 0;
+            while (percents < pos && format_buffer[pos - percents - 1] == '%') {
+               ++percents;
+            }
+            if (percents % 2 == 1) {
+               continue;
+            }
+
             // figuring out whether this is nano, micro or milli identifier
             auto type = g3::internal::getFractional(format_buffer, pos);
             auto value = g3::internal::to_string(ts, type);
-- 
2.43.0


From 786f2f062e50f1628ff42d62dbc4c6148ed18683 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:59 +0000
Subject: [PATCH 11/26] fix: opening a log file whose name already exists does
 not destroy its content

---
 src/filesinkhelper.ipp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/filesinkhelper.ipp b/src/filesinkhelper.ipp
index 1e42999..8d1ef34 100644
--- a/src/filesinkhelper.ipp
+++ b/src/filesinkhelper.ipp
@@ -99,7 +99,7 @@ namespace g3 {
 
       bool openLogFile(const std::string &complete_file_with_path, std::ofstream &outstream) {
          std::ios_base::openmode mode = std::ios_base::out; // for clarity: it's really overkill since it's an ofstream
-         mode |= std::ios_base::trunc;
+         mode |= std::ios_base::app;  // never destroy what is already logged: names have a resolution of one second
          outstream.open(complete_file_with_path, mode);
          if (!outstream.is_open()) {
             std::ostringstream ss_error;
-- 
2.43.0


From cd2122891829910b8921e65b6419fb6ebe055e55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:59 +0000
Subject: [PATCH 12/26] fix: the note about a failed log file change is a line
 of its own

---
 src/filesink.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/filesink.cpp b/src/filesink.cpp
index 2e559d0..8fb8dcb 100644
--- a/src/filesink.cpp
+++ b/src/filesink.cpp
@@ -79,7 +79,7 @@ namespace g3 {
       std::unique_ptr<std::ofstream> log_stream = createLogFile(prospect_log);
       if (nullptr == log_stream) {
          filestream() << "\n"
-                      << now_formatted << " Unable to change log file. Illegal filename or busy? Unsuccessful log name was: " << prospect_log;
+                      << now_formatted << " Unable to change log file. Illegal filename or busy? Unsuccessful log name was: " << prospect_log << "\n";
          return {};  // no success
       }
 
-- 
2.43.0


From e1a5c258ada3939407eadd2aab6d1ad4057ba974 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:43 +0000
Subject: [PATCH 13/26] fix: a fatal event on a thread of the logger or a sink
 terminates instead of deadlocking

---
 src/crashhandler_unix.cpp  |  3 ++-
 src/g3log.cpp              | 14 ++++++++++++--
 src/g3log/crashhandler.hpp |  5 +++++
 src/g3log/sink.hpp         |  3 +++
 src/logworker.cpp          |  4 +++-
 5 files changed, 25 insertions(+), 4 deletions(-)

diff --git a/src/crashhandler_unix.cpp b/src/crashhandler_unix.cpp
index 2031767..e513421 100644
--- a/src/crashhandler_unix.cpp
+++ b/src/crashhandler_unix.cpp
@@ -64,7 +64,8 @@ namespace {
       using namespace g3::internal;
 
       // Only one signal will be allowed past this point
-      if (false == shouldDoExit()) {
+      // ... but a logger thread must not be kept waiting: the flush that is waited for, waits for it
+      if (false == shouldDoExit() && false == isLoggerThread()) {
          while (shouldBlockForFatalHandling()) {
             std::this_thread::sleep_for(std::chrono::seconds(1));
          }
diff --git a/src/g3log.cpp b/src/g3log.cpp
index e0295d1..a3fdf03 100644
--- a/src/g3log.cpp
+++ b/src/g3log.cpp
@@ -45,6 +45,7 @@ namespace {
    std::function<void(void)> g_fatal_pre_logging_hook = g_pre_fatal_hook_that_does_nothing;
 
    std::atomic<size_t> g_fatal_hook_recursive_counter = {0};
+   thread_local bool g_is_logger_thread = false;
 }  // namespace
 
 namespace g3 {
@@ -107,6 +108,14 @@ namespace g3 {
 
    namespace internal {
 
+      void markLoggerThread() {
+         g_is_logger_thread = true;
+      }
+
+      bool isLoggerThread() {
+         return g_is_logger_thread;
+      }
+
       bool isLoggingInitialized() {
          return g_logger_instance != nullptr;
       }
@@ -220,9 +229,10 @@ namespace g3 {
           */
       void pushFatalMessageToLogger(FatalMessagePtr message) {
          LogWorker* logger = g_logger_instance;
-         if (nullptr == logger) {
+         if (nullptr == logger || isLoggerThread()) {
             std::ostringstream error;
-            error << "FATAL CALL but logger is NOT initialized\n"
+            error << (nullptr == logger ? "FATAL CALL but logger is NOT initialized\n"
+                                        : "FATAL CALL on a thread of the logger itself\n")
                   << "CAUSE: " << message.get()->reason()
                   << "\nMessage: \n"
                   << message.get()->toString() << std::flush;
diff --git a/src/g3log/crashhandler.hpp b/src/g3log/crashhandler.hpp
index 941e1e1..cbf2838 100644
--- a/src/g3log/crashhandler.hpp
+++ b/src/g3log/crashhandler.hpp
@@ -66,6 +66,11 @@ namespace g3 {
        *  help any other exceptions handler work with 'EXCEPTION_CONTINUE_SEARCH'*/
       bool shouldBlockForFatalHandling();
 
+      /** Marks/asks whether the calling thread is a background thread of the logger or of a sink.
+       *  A fatal event on such a thread cannot wait for the flush: the flush waits for that thread */
+      void markLoggerThread();
+      bool isLoggerThread();
+
       /** \return signal_name Ref: signum.hpp and \ref installSignalHandler
       *  or for Windows exception name */
       std::string exitReasonName(const LEVELS& level, g3::SignalType signal_number);
diff --git a/src/g3log/sink.hpp b/src/g3log/sink.hpp
index 61f8850..7e7268e 100644
--- a/src/g3log/sink.hpp
+++ b/src/g3log/sink.hpp
@@ -9,6 +9,7 @@
 #pragma once
 
 #include "g3log/active.hpp"
+#include "g3log/crashhandler.hpp"
 #include "g3log/future.hpp"
 #include "g3log/logmessage.hpp"
 #include "g3log/sinkwrapper.hpp"
@@ -45,12 +46,14 @@ namespace g3 {
              _real_sink{std::move(sink)},
              _bg(kjellkod::Active::createActive()),
              _default_log_call(std::bind(call, _real_sink.get(), std::placeholders::_1)) {
+            _bg->send(markLoggerThread);
          }
 
          Sink(std::unique_ptr<T> sink, void (T::*Call)(std::string)) :
              SinkWrapper(),
              _real_sink{std::move(sink)},
              _bg(kjellkod::Active::createActive()) {
+            _bg->send(markLoggerThread);
             std::function<void(std::string)> adapter = std::bind(Call, _real_sink.get(), std::placeholders::_1);
             _default_log_call = [=](LogMessageMover m) {
                adapter(m.get().toString());
diff --git a/src/logworker.cpp b/src/logworker.cpp
index 4bda245..8c1fce3 100644
--- a/src/logworker.cpp
+++ b/src/logworker.cpp
@@ -18,7 +18,9 @@
 namespace g3 {
 
    LogWorkerImpl::LogWorkerImpl() :
-       _bg(kjellkod::Active::createActive()) {}
+       _bg(kjellkod::Active::createActive()) {
+      _bg->send(internal::markLoggerThread);
+   }
 
    void LogWorkerImpl::bgSave(g3::LogMessagePtr msgPtr) {
       std::unique_ptr<LogMessage> uniqueMsg(std::move(msgPtr.get()));
-- 
2.43.0


From b78c26083f1358efe34d2ad7bbaf02ab5c560870 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:43 +0000
Subject: [PATCH 14/26] fix: a later fatal event does not cut short the flush
 of the first one

---
 src/g3log.cpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/g3log.cpp b/src/g3log.cpp
index a3fdf03..e6e150b 100644
--- a/src/g3log.cpp
+++ b/src/g3log.cpp
@@ -228,6 +228,18 @@ namespace g3 {
           * message and kills the software with the fatal signal.
           */
       void pushFatalMessageToLogger(FatalMessagePtr message) {
+         // Only the first fatal event takes the process down. One from another thread must not exit
+         // before the flush for the first one is done
+         static std::atomic<std::thread::id> first_fatal_thread{std::thread::id{}};
+         std::thread::id other;
+         if (!first_fatal_thread.compare_exchange_strong(other, std::this_thread::get_id()) &&
+             other != std::this_thread::get_id() && !isLoggerThread()) {
+            while (shouldBlockForFatalHandling()) {
+               std::this_thread::sleep_for(std::chrono::seconds(1));
+            }
+            return;
+         }
+
          LogWorker* logger = g_logger_instance;
          if (nullptr == logger || isLoggerThread()) {
             std::ostringstream error;
-- 
2.43.0


From f73b15f1b668b1b6864be7dcad5e68e306d61ae9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:35 +0000
Subject: [PATCH 15/26] fix: a message with an embedded null character is not
 cut off there

---
 src/g3log.cpp       | 4 ++--
 src/g3log/g3log.hpp | 2 +-
 src/logcapture.cpp  | 7 ++++---
 3 files changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/g3log.cpp b/src/g3log.cpp
index e6e150b..d478e8c 100644
--- a/src/g3log.cpp
+++ b/src/g3log.cpp
@@ -149,11 +149,11 @@ namespace g3 {
 
       /** explicitly copy of all input. This is makes it possibly to use g3log across dynamically loaded libraries
       * i.e. (dlopen + dlsym)  */
-      void saveMessage(const char* entry, const char* file, int line, const char* function, const LEVELS& level,
+      void saveMessage(const char* entry, size_t entry_size, const char* file, int line, const char* function, const LEVELS& level,
                        const char* boolean_expression, int fatal_signal, const char* stack_trace) {
          LEVELS msgLevel{level};
          LogMessagePtr message{std::make_unique<LogMessage>(file, line, function, msgLevel)};
-         message.get()->write().append(entry);
+         message.get()->write().append(entry, entry_size);
          message.get()->setExpression(boolean_expression);
 
          if (internal::wasFatal(level)) {
diff --git a/src/g3log/g3log.hpp b/src/g3log/g3log.hpp
index af5363d..92b11d5 100644
--- a/src/g3log/g3log.hpp
+++ b/src/g3log/g3log.hpp
@@ -103,7 +103,7 @@ namespace g3 {
       bool isLoggingInitialized();
 
       // Save the created LogMessage to any existing sinks
-      void saveMessage(const char* message, const char* file, int line, const char* function, const LEVELS& level,
+      void saveMessage(const char* message, size_t message_size, const char* file, int line, const char* function, const LEVELS& level,
                        const char* boolean_expression, int fatal_signal, const char* stack_trace);
 
       void saveFatalMessage(const char* stack_trace, g3::LogMessagePtr& message, int& fatal_signal);
diff --git a/src/logcapture.cpp b/src/logcapture.cpp
index d4f138b..fa2c25d 100644
--- a/src/logcapture.cpp
+++ b/src/logcapture.cpp
@@ -43,7 +43,8 @@ void g3::only_change_at_initialization::setMaxMessageSize(size_t max_size) {
 LogCapture::~LogCapture() noexcept(false) {
    using namespace g3::internal;
    SIGNAL_HANDLER_VERIFY();
-   saveMessage(_stream.str().c_str(), _file, _line, _function, _level, _expression, _fatal_signal, _stack_trace.c_str());
+   const std::string message = _stream.str();  // may contain '\0'
+   saveMessage(message.c_str(), message.size(), _file, _line, _function, _level, _expression, _fatal_signal, _stack_trace.c_str());
 }
 
 /// Called from crash handler when a fatal signal has occurred (SIGSEGV etc)
@@ -106,8 +107,8 @@ void LogCapture::capturef(const char* printf_like_message, ...) {
       stream() << "\n\tERROR LOG MSG NOTIFICATION: Failure to successfully parse the message";
       stream() << '"' << printf_like_message << '"' << std::endl;
    } else if (nbrcharacters >= finished_message_len) {
-      stream() << finished_message << kTruncatedWarningText;
+      stream().write(finished_message, finished_message_len - 1) << kTruncatedWarningText;
    } else {
-      stream() << finished_message;
+      stream().write(finished_message, nbrcharacters);
    }
 }
-- 
2.43.0


From 29bd4ccf246f3626c334978b69db0e754a3d7bfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:12 +0000
Subject: [PATCH 16/26] fix: the base name of a source file starts after the
 last separator, not after a parenthesis

---
 src/logmessage.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/logmessage.cpp b/src/logmessage.cpp
index 5e6faa9..16f80cc 100644
--- a/src/logmessage.cpp
+++ b/src/logmessage.cpp
@@ -15,7 +15,7 @@ namespace g3 {
 
    std::string LogMessage::splitFileName(const std::string& str) {
       size_t found;
-      found = str.find_last_of("(/\\");
+      found = str.find_last_of("/\\");
       return str.substr(found + 1);
    }
 
-- 
2.43.0


From aacaf951c79baf1d9e6d9e7f8e9d7c1741fa8c92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:29 +0000
Subject: [PATCH 17/26] fix: a formatted time longer than 1023 characters is
 not replaced by its format

---
 src/time.cpp | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/time.cpp b/src/time.cpp
index 73a582a..1657d73 100644
--- a/src/time.cpp
+++ b/src/time.cpp
@@ -124,11 +124,13 @@ namespace g3 {
       oss << std::put_time(const_cast<struct tm*>(tmb), c_time_format);
       return oss.str();
 #else  // LINUX
-      const size_t size = 1024;
-      char buffer[size];  // IMPORTANT: check now and then for when gcc will implement std::put_time.
-      //                    ... also ... This is way more buffer space then we need
-
-      auto success = std::strftime(buffer, size, c_time_format, tmb);
+      // the leading space tells an empty result from a buffer that was too small
+      const std::string format = std::string(" ") + c_time_format;
+      std::string buffer(1024, '\0');
+      auto success = std::strftime(&buffer[0], buffer.size(), format.c_str(), tmb);
+      for (; 0 == success && buffer.size() < 1024 * 1024; success = std::strftime(&buffer[0], buffer.size(), format.c_str(), tmb)) {
+         buffer.resize(buffer.size() * 2);
+      }
       // In DEBUG the assert will trigger a process exit. Once inside the if-statement
       // the 'always true' expression will be displayed as reason for the exit
       //
@@ -138,7 +140,7 @@ namespace g3 {
          assert((0 != success) && "strftime fails with illegal formatting");
          return c_time_format;
       }
-      return buffer;
+      return buffer.substr(1, success - 1);
 #endif
    }
 
-- 
2.43.0


From 09ba856af58656e965fc32b1d7209ccbc4621ddc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:50 +0000
Subject: [PATCH 18/26] fix: a fatal event also flushes sinks that the
 application keeps alive

---
 src/filesink.cpp          | 3 ++-
 src/g3log/sink.hpp        | 4 ++++
 src/g3log/sinkwrapper.hpp | 2 ++
 src/logworker.cpp         | 5 +++++
 4 files changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/filesink.cpp b/src/filesink.cpp
index 8fb8dcb..eb011d7 100644
--- a/src/filesink.cpp
+++ b/src/filesink.cpp
@@ -63,7 +63,8 @@ namespace g3 {
       auto data = message.get().toString(_log_details_func);
 
       _write_buffer.append(data);
-      if (++_write_counter % _write_to_log_every_x_message == 0) {
+      // nothing can be left in the buffer after a fatal message: the process is about to end
+      if (++_write_counter % _write_to_log_every_x_message == 0 || message.get().wasFatal()) {
          filestream() << _write_buffer << std::flush;
          _write_buffer.clear();
       }
diff --git a/src/g3log/sink.hpp b/src/g3log/sink.hpp
index 7e7268e..ec12d8c 100644
--- a/src/g3log/sink.hpp
+++ b/src/g3log/sink.hpp
@@ -70,6 +70,10 @@ namespace g3 {
             });
          }
 
+         void flush() override {
+            g3::spawn_task([] {}, _bg.get()).wait();
+         }
+
          template <typename Call, typename... Args>
          auto async(Call call, Args&&... args) -> std::future<std::invoke_result_t<decltype(call), T, Args...>> {
             return g3::spawn_task(std::bind(call, _real_sink.get(), std::forward<Args>(args)...), _bg.get());
diff --git a/src/g3log/sinkwrapper.hpp b/src/g3log/sinkwrapper.hpp
index f9c8fc2..0459c69 100644
--- a/src/g3log/sinkwrapper.hpp
+++ b/src/g3log/sinkwrapper.hpp
@@ -16,6 +16,8 @@ namespace g3 {
       struct SinkWrapper {
          virtual ~SinkWrapper() {}
          virtual void send(LogMessageMover msg) = 0;
+         /// returns when everything sent so far is processed
+         virtual void flush() {}
       };
    }  // namespace internal
 }  // namespace g3
diff --git a/src/logworker.cpp b/src/logworker.cpp
index 8c1fce3..686baed 100644
--- a/src/logworker.cpp
+++ b/src/logworker.cpp
@@ -60,6 +60,11 @@ namespace g3 {
          sink->send(LogMessageMover(std::move(msg)));
       }
 
+      // A sink that the client keeps alive is not flushed by the clear
+      for (auto& sink : _sinks) {
+         sink->flush();
+      }
+
       // This clear is absolutely necessary
       // All sinks are forced to receive the fatal message above before we continue
       _sinks.clear();  // flush all queues
-- 
2.43.0


From d570b95ebc98dc3ddbf0f1e7f69c48ae384a42b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:50 +0000
Subject: [PATCH 19/26] fix: a crash in the pre-fatal hook of a fatal signal
 does not block forever

---
 src/crashhandler_unix.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/crashhandler_unix.cpp b/src/crashhandler_unix.cpp
index e513421..0973e72 100644
--- a/src/crashhandler_unix.cpp
+++ b/src/crashhandler_unix.cpp
@@ -50,10 +50,11 @@ namespace {
    std::map<int, std::string> gSignals = kSignals;
    std::map<int, struct sigaction> gSavedSigActions;
 
+   // true for the first signal and for a signal caused by its handling (in the same thread), e.g. in the pre-fatal hook
    bool shouldDoExit() {
-      static std::atomic<uint64_t> firstExit{0};
-      auto const count = firstExit.fetch_add(1, std::memory_order_relaxed);
-      return (0 == count);
+      static std::atomic<std::thread::id> firstExit{std::thread::id{}};
+      std::thread::id first;
+      return firstExit.compare_exchange_strong(first, std::this_thread::get_id()) || first == std::this_thread::get_id();
    }
 
    // Dump of stack,. then exit through g3log background worker
-- 
2.43.0


From 8dde8d1ba0d67d339e556f88ecd658511d4d078a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:58 +0000
Subject: [PATCH 20/26] fix: a fatal signal raised again in its handler ends
 the process by that signal

---
 src/crashhandler_unix.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/crashhandler_unix.cpp b/src/crashhandler_unix.cpp
index 0973e72..aa54a1a 100644
--- a/src/crashhandler_unix.cpp
+++ b/src/crashhandler_unix.cpp
@@ -235,6 +235,11 @@ namespace g3 {
                    << __FUNCTION__ << ":" << __LINE__ << ". Exiting due to " << level.text << ", " << signal_number << "   \n\n"
                    << std::flush;
 
+         // In the thread that handles the signal it is blocked: the process would exit normally below
+         sigset_t unblock;
+         sigemptyset(&unblock);
+         sigaddset(&unblock, signal_number);
+         pthread_sigmask(SIG_UNBLOCK, &unblock, nullptr);
          raise(signal_number);
 
          // When running as PID1 the above kill doesn't have any effect (execution simply passes through it, contrary
-- 
2.43.0


From 88c7cc2b28a18164939bce7e5b572bfabfcf8026 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:45:57 +0000
Subject: [PATCH 21/26] fix: a fatal exit that passes the raise runs neither
 the code after the event nor exit handlers

---
 src/crashhandler_unix.cpp | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/src/crashhandler_unix.cpp b/src/crashhandler_unix.cpp
index aa54a1a..5979ce2 100644
--- a/src/crashhandler_unix.cpp
+++ b/src/crashhandler_unix.cpp
@@ -242,12 +242,11 @@ namespace g3 {
          pthread_sigmask(SIG_UNBLOCK, &unblock, nullptr);
          raise(signal_number);
 
-         // When running as PID1 the above kill doesn't have any effect (execution simply passes through it, contrary
-         // to a non-PID1 process where execution stops at kill and switches over to signal handling). Also as PID1
-         // we must unblock the thread that received the original signal otherwise the process will never terminate.
-         gBlockForFatal = false;
-
-         exit(signal_number);
+         // Execution passes through the raise when running as PID1 (contrary to a non-PID1 process, where execution stops
+         // there) or when the original signal handler returns. As with a default signal nothing else may run any more:
+         // neither the code after the fatal event, i.e. the waiting threads stay blocked, nor exit handlers that could
+         // wait for these threads or for what they hold.
+         _exit(signal_number);
       }
 
       // This function is intended to be async-signal-safe. Using write and STDERR_FILENO should be
-- 
2.43.0


From 32f5cf89b52b646078a52618f77e57ef73aa18da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:56:11 +0000
Subject: [PATCH 22/26] fix: a contract check accepts any true condition, not
 only the value 1

CHECK, CHECKF and CHECK_F compared the condition with true, so a true condition that converts to an integer other than 1 (CHECK(flags & 4)) was fatal.
---
 src/g3log/g3log.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/g3log/g3log.hpp b/src/g3log/g3log.hpp
index 92b11d5..6befd6e 100644
--- a/src/g3log/g3log.hpp
+++ b/src/g3log/g3log.hpp
@@ -154,7 +154,7 @@ namespace g3 {
 // 'Design By Contract' stream API. Broken Contracts will exit the application by using fatal signal SIGABRT
 //  For unit testing, you can override the fatal handling using setFatalExitHandler(...). See tes_io.cpp for examples
 #define CHECK(boolean_expression)        \
-   if (true == (boolean_expression)) {} else INTERNAL_CONTRACT_MESSAGE(#boolean_expression).stream()
+   if (static_cast<bool>(boolean_expression)) {} else INTERNAL_CONTRACT_MESSAGE(#boolean_expression).stream()
 
 
 /** For details please see this
@@ -216,12 +216,12 @@ And here is possible output
 // Calls the signal handler if the contract failed with the default exit for a failed contract. This is typically SIGABRT
 // See g3log, setFatalExitHandler(...) which can be overriden for unit tests (ref test_io.cpp)
 #define CHECKF(boolean_expression, printf_like_message, ...)    \
-   if (true == (boolean_expression)) {} else INTERNAL_CONTRACT_MESSAGE(#boolean_expression).capturef(printf_like_message, ##__VA_ARGS__)
+   if (static_cast<bool>(boolean_expression)) {} else INTERNAL_CONTRACT_MESSAGE(#boolean_expression).capturef(printf_like_message, ##__VA_ARGS__)
 
 // Backwards compatible. The same as CHECKF.
 // Design By Contract, printf-like API syntax with variadic input parameters.
 // Calls the signal handler if the contract failed. See g3log, setFatalExitHandler(...) which can be overriden for unit tests
 // (ref test_io.cpp)
 #define CHECK_F(boolean_expression, printf_like_message, ...)    \
-   if (true == (boolean_expression)) {} else INTERNAL_CONTRACT_MESSAGE(#boolean_expression).capturef(printf_like_message, ##__VA_ARGS__)
+   if (static_cast<bool>(boolean_expression)) {} else INTERNAL_CONTRACT_MESSAGE(#boolean_expression).capturef(printf_like_message, ##__VA_ARGS__)
    // clang-format on
\ No newline at end of file
-- 
2.43.0


From acc4726f498eaed18d2e42c2a26b68f30bf5709f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:56:11 +0000
Subject: [PATCH 23/26] fix: a maximum message size of zero still logs the
 truncation marker

capturef wrote a negative count to the stream, which then dropped the marker.
---
 src/logcapture.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/logcapture.cpp b/src/logcapture.cpp
index fa2c25d..073a4f6 100644
--- a/src/logcapture.cpp
+++ b/src/logcapture.cpp
@@ -31,7 +31,7 @@
 static int MaxMessageSize = 2048;
 
 void g3::only_change_at_initialization::setMaxMessageSize(size_t max_size) {
-   MaxMessageSize = max_size;
+   MaxMessageSize = max_size > 0 ? max_size : 1; // room for the terminating null
 }
 #endif /* G3_DYNAMIC_MAX_MESSAGE_SIZE */
 
-- 
2.43.0


From 3b57a1f54fc798cd6cf27d7b5e3f21f80c31a717 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:02:49 +0000
Subject: [PATCH 24/26] fix: a file sink with a write interval of zero no
 longer divides by zero

---
 src/filesink.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/filesink.cpp b/src/filesink.cpp
index eb011d7..8f64f51 100644
--- a/src/filesink.cpp
+++ b/src/filesink.cpp
@@ -22,7 +22,7 @@ namespace g3 {
        _header("\t\tLOG format: [YYYY/MM/DD hh:mm:ss uuu* LEVEL FILE->FUNCTION:LINE] message\n\n\t\t(uuu*: microseconds fractions of the seconds value)\n\n"),
        _firstEntry(true),
        _write_counter(0),
-       _write_to_log_every_x_message(write_to_log_every_x_message) {
+       _write_to_log_every_x_message(write_to_log_every_x_message > 0 ? write_to_log_every_x_message : 1) {
       _log_prefix_backup = prefixSanityFix(log_prefix);
       if (!isValidFilename(_log_prefix_backup)) {
          std::cerr << "g3log: forced abort due to illegal log prefix [" << log_prefix << "]" << std::endl;
-- 
2.43.0


From 526aa3719acfb92ea1a452afe761ae804f4bf3cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:02:49 +0000
Subject: [PATCH 25/26] fix: the root is not mistaken for the current directory
 of a log file

---
 src/filesinkhelper.ipp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/filesinkhelper.ipp b/src/filesinkhelper.ipp
index 8d1ef34..2e0dc57 100644
--- a/src/filesinkhelper.ipp
+++ b/src/filesinkhelper.ipp
@@ -64,11 +64,11 @@ namespace g3 {
             return (end == '/' || end == ' ');
          };
 
-         while (contains_end(path)) {
+         while (path != "/" && contains_end(path)) {
             path.erase(path.size() - 1);
          }
 
-         if (!path.empty()) {
+         if (!path.empty() && path != "/") {
             path.insert(path.end(), '/');
          }
 
-- 
2.43.0


From 4997efdc80eb04ac1f901b4ebba1b2e57bdebd9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:53:12 +0000
Subject: [PATCH 26/26] fix: a message logged while the logger is initialized
 is neither lost nor dereferences null

The first message before initialization was stored and moved out without
synchronization: logging in one thread during initializeLogging in another
could crash, or report the message without ever delivering it.
---
 src/g3log.cpp | 28 ++++++++++++++++++++--------
 1 file changed, 20 insertions(+), 8 deletions(-)

diff --git a/src/g3log.cpp b/src/g3log.cpp
index d478e8c..3e97dbe 100644
--- a/src/g3log.cpp
+++ b/src/g3log.cpp
@@ -38,6 +38,7 @@ namespace {
    std::mutex g_logging_init_mutex;
 
    std::unique_ptr<g3::LogMessage> g_first_uninitialized_msg = {nullptr};
+   std::mutex g_first_uninitialized_mutex;
    std::once_flag g_set_first_uninitialized_flag;
    std::once_flag g_save_first_uninitialized_flag;
    const std::function<void(void)> g_pre_fatal_hook_that_does_nothing = [] { /*does nothing */ };
@@ -69,14 +70,17 @@ namespace g3 {
          std::exit(EXIT_FAILURE);
       }
 
-      // Save the first uninitialized message, if any
-      std::call_once(g_save_first_uninitialized_flag, [&bgworker] {
-         if (g_first_uninitialized_msg) {
-            bgworker->save(LogMessagePtr{std::move(g_first_uninitialized_msg)});
-         }
-      });
+      {
+         // Save the first uninitialized message, if any
+         std::lock_guard<std::mutex> first_lock(g_first_uninitialized_mutex);
+         std::call_once(g_save_first_uninitialized_flag, [&bgworker] {
+            if (g_first_uninitialized_msg) {
+               bgworker->save(LogMessagePtr{std::move(g_first_uninitialized_msg)});
+            }
+         });
 
-      g_logger_instance = bgworker;
+         g_logger_instance = bgworker;
+      }
       // by default the pre fatal logging hook does nothing
       // if it WOULD do something it would happen in
       setFatalPreLoggingHook(g_pre_fatal_hook_that_does_nothing);
@@ -208,6 +212,12 @@ namespace g3 {
          LogWorker* logger = g_logger_instance;
          if (nullptr == logger) {
             std::call_once(g_set_first_uninitialized_flag, [&] {
+               // another thread can be initializing the logger: the message is either saved in time for it or sent to it
+               std::lock_guard<std::mutex> lock(g_first_uninitialized_mutex);
+               logger = g_logger_instance;
+               if (nullptr != logger) {
+                  return;
+               }
                g_first_uninitialized_msg = incoming.release();
                std::string err = {"LOGGER NOT INITIALIZED:\n\t\t"};
                err.append(g_first_uninitialized_msg->message());
@@ -215,7 +225,9 @@ namespace g3 {
                str.clear();
                str.append(err); // replace content
                std::cerr << str << std::endl; });
-            return;
+            if (nullptr == logger) {
+               return;
+            }
          }
 
          // logger is initialized
-- 
2.43.0

