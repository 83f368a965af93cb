From 06806aca8d81d03ac82bbc83af13c0c28413d006 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:48 +0000
Subject: [PATCH 01/40] fix: arithmetic_progression_sum lost high bits of sums
 that fit in the result

---
 cpp_utils/src/cpp/math/math_extension.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/cpp_utils/src/cpp/math/math_extension.cpp b/cpp_utils/src/cpp/math/math_extension.cpp
index eb9ca7e..0a4db62 100644
--- a/cpp_utils/src/cpp/math/math_extension.cpp
+++ b/cpp_utils/src/cpp/math/math_extension.cpp
@@ -116,7 +116,12 @@ unsigned int arithmetic_progression_sum(
         unsigned int interval,
         unsigned int steps) noexcept
 {
-    return (((2 * lowest + ((steps - 1) * interval)) * steps) / 2);
+    // Halve the even factor of (steps * (steps - 1)) before multiplying, so the result is only affected by an overflow
+    // when the sum itself does not fit.
+    const unsigned int triangular =
+            is_even(steps) ? (steps / 2) * (steps - 1) : steps * ((steps - 1) / 2);
+
+    return (steps * lowest) + (triangular * interval);
 }
 
 unsigned int fast_exponential(
-- 
2.43.0


From b19bc283321d09b528aba7bf7e7dd88359ccde6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:16 +0000
Subject: [PATCH 02/40] fix: a service name with more than one "/" was not
 mangled

---
 cpp_utils/src/cpp/ros2_mangling.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/cpp_utils/src/cpp/ros2_mangling.cpp b/cpp_utils/src/cpp/ros2_mangling.cpp
index c72c69e..7f51cdd 100644
--- a/cpp_utils/src/cpp/ros2_mangling.cpp
+++ b/cpp_utils/src/cpp/ros2_mangling.cpp
@@ -221,8 +221,7 @@ std::string mangle_ros_service_in_topic(
         const std::string& topic_name,
         const std::string suffix)
 {
-    size_t topic_name_position = topic_name.rfind("/");
-    if (topic_name_position != 0)
+    if (topic_name.rfind("/", 0) != 0)
     {
         return "";
     }
-- 
2.43.0


From e77c71a3df0cf5673492fb4986155b8f06670659 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:16 +0000
Subject: [PATCH 03/40] fix: demangle_if_ros_type read before the start of an
 empty string

---
 cpp_utils/src/cpp/ros2_mangling.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cpp_utils/src/cpp/ros2_mangling.cpp b/cpp_utils/src/cpp/ros2_mangling.cpp
index 7f51cdd..2c92d50 100644
--- a/cpp_utils/src/cpp/ros2_mangling.cpp
+++ b/cpp_utils/src/cpp/ros2_mangling.cpp
@@ -127,7 +127,7 @@ std::string mangle_if_ros_topic(
 std::string demangle_if_ros_type(
         const std::string& dds_type_string)
 {
-    if (dds_type_string[dds_type_string.size() - 1] != '_')
+    if (dds_type_string.empty() || dds_type_string.back() != '_')
     {
         // not a ROS type
         return dds_type_string;
-- 
2.43.0


From 0969b9c75b7a78324b8aa1d9318c50be06b0a9f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:16 +0000
Subject: [PATCH 04/40] fix: demangle_service_type_only accepted types whose
 suffix is not at the end

---
 cpp_utils/src/cpp/ros2_mangling.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cpp_utils/src/cpp/ros2_mangling.cpp b/cpp_utils/src/cpp/ros2_mangling.cpp
index 2c92d50..1c46dc6 100644
--- a/cpp_utils/src/cpp/ros2_mangling.cpp
+++ b/cpp_utils/src/cpp/ros2_mangling.cpp
@@ -299,7 +299,7 @@ std::string demangle_service_type_only(
             break;
         }
     }
-    if (std::string::npos == suffix_position)
+    if (found_suffix.empty())
     {
         logWarning(DDSPIPE_DEMANGLE,
                 "service type contains 'dds_::' but does not have a suffix"
-- 
2.43.0


From 1b9e96fdd6368d117c82a82ea53453445b09cf98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:16 +0000
Subject: [PATCH 05/40] fix: replace_all never ended when the replacement
 contains the replaced string

---
 cpp_utils/src/cpp/utils.cpp | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/cpp_utils/src/cpp/utils.cpp b/cpp_utils/src/cpp/utils.cpp
index d6cb93e..dae80d6 100644
--- a/cpp_utils/src/cpp/utils.cpp
+++ b/cpp_utils/src/cpp/utils.cpp
@@ -277,10 +277,21 @@ unsigned int replace_all(
         std::string const& to_replace,
         std::string const& replace_by)
 {
+    if (to_replace.empty())
+    {
+        // There is nothing to look for
+        return 0;
+    }
+
     unsigned int replacements = 0;
-    while (replace_first(st, to_replace, replace_by))
+    std::size_t pos = st.find(to_replace);
+    while (pos != std::string::npos)
     {
+        st.replace(pos, to_replace.length(), replace_by);
         replacements++;
+
+        // Do not look into the text already replaced, as it could contain the string to replace
+        pos = st.find(to_replace, pos + replace_by.length());
     }
     return replacements;
 }
-- 
2.43.0


From 9fc489f128f9c40a4bbe523691347026eec61bfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:16 +0000
Subject: [PATCH 06/40] fix: split_string never ended with an empty delimiter

---
 cpp_utils/src/cpp/utils.cpp | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/cpp_utils/src/cpp/utils.cpp b/cpp_utils/src/cpp/utils.cpp
index dae80d6..ea49ef6 100644
--- a/cpp_utils/src/cpp/utils.cpp
+++ b/cpp_utils/src/cpp/utils.cpp
@@ -358,10 +358,16 @@ std::vector<std::string> split_string(
         const std::string& source,
         const std::string& delimiter)
 {
+    if (delimiter.empty())
+    {
+        // There is nothing to split by
+        return {source};
+    }
+
     std::vector<std::string> result;
-    int start = 0;
-    int end = source.find(delimiter);
-    while (end != -1)
+    std::size_t start = 0;
+    std::size_t end = source.find(delimiter);
+    while (end != std::string::npos)
     {
         result.push_back(source.substr(start, end - start));
         start = end + delimiter.size();
-- 
2.43.0


From 056bb477c752708de399902b6c32cac47e1b2f14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:58 +0000
Subject: [PATCH 07/40] fix: to_bytes converted 2^64 bytes, which do not fit,
 instead of rejecting them

---
 cpp_utils/src/cpp/utils.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/cpp_utils/src/cpp/utils.cpp b/cpp_utils/src/cpp/utils.cpp
index ea49ef6..c0fee6a 100644
--- a/cpp_utils/src/cpp/utils.cpp
+++ b/cpp_utils/src/cpp/utils.cpp
@@ -167,16 +167,16 @@ std::uint64_t to_bytes(
     const auto unit = units.at(unit_str);
 
     // Check whether the product of number * unit overflows
+    // @note: The maximum is not representable as a double, so it is rounded to the next value (2^64), which overflows.
     // @note: The parentheses are necessary to distinguish std::max from the max macro (Windows).
-    if (number > (std::numeric_limits<std::uint64_t>::max)() / unit)
+    const double bytes = number * unit;
+    if (bytes >= static_cast<double>((std::numeric_limits<std::uint64_t>::max)()))
     {
         throw std::invalid_argument("The number is too large to be converted to bytes.");
     }
 
-    // The product is safe since the possible overflow has also been checked.
-    const std::uint64_t bytes = number * unit;
-
-    return bytes;
+    // The conversion is safe since the possible overflow has also been checked.
+    return static_cast<std::uint64_t>(bytes);
 }
 
 std::string from_bytes(
-- 
2.43.0


From 962b1203fc8956e529798c6f2a6a47424d3a07ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:58 +0000
Subject: [PATCH 08/40] fix: to_bytes threw std::out_of_range for numbers out
 of the range of double

---
 cpp_utils/src/cpp/utils.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cpp_utils/src/cpp/utils.cpp b/cpp_utils/src/cpp/utils.cpp
index c0fee6a..eb00762 100644
--- a/cpp_utils/src/cpp/utils.cpp
+++ b/cpp_utils/src/cpp/utils.cpp
@@ -152,7 +152,8 @@ std::uint64_t to_bytes(
 
     // Extract the number
     std::string number_str = matches[1].str();
-    double number = std::stod(number_str);
+    // @note: Unlike std::stod, it does not throw std::out_of_range if the number does not fit in a double.
+    double number = std::strtod(number_str.c_str(), nullptr);
 
     // Extract the unit
     std::string unit_str = matches[3].str();
-- 
2.43.0


From 088acf3d65e3beb1190256b3a12dcbf28fca0867 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:58 +0000
Subject: [PATCH 09/40] fix: number_trailing_zeros_format divided by zero, or
 rejected numbers that fit, for wide fields

---
 cpp_utils/src/cpp/utils.cpp | 19 +++++++++----------
 1 file changed, 9 insertions(+), 10 deletions(-)

diff --git a/cpp_utils/src/cpp/utils.cpp b/cpp_utils/src/cpp/utils.cpp
index eb00762..19fb4bf 100644
--- a/cpp_utils/src/cpp/utils.cpp
+++ b/cpp_utils/src/cpp/utils.cpp
@@ -315,19 +315,18 @@ std::string number_trailing_zeros_format(
         unsigned int n_chars,
         bool allow_more_chars /* = true */)
 {
-    if (!allow_more_chars)
+    std::ostringstream os;
+    os << std::setw(n_chars) << std::setfill('0') << value_to_print;
+    const std::string result = os.str();
+
+    if (!allow_more_chars && result.size() > n_chars)
     {
-        if (value_to_print / fast_exponential(10, n_chars) > 0)
-        {
-            throw PreconditionNotMet(STR_ENTRY
-                          << "Number <" << value_to_print << ">"
-                          << " has more than <" << n_chars << "> chars");
-        }
+        throw PreconditionNotMet(STR_ENTRY
+                      << "Number <" << value_to_print << ">"
+                      << " has more than <" << n_chars << "> chars");
     }
 
-    std::ostringstream os;
-    os << std::setw(n_chars) << std::setfill('0') << value_to_print;
-    return os.str();
+    return result;
 }
 
 std::vector<std::string> split_string(
-- 
2.43.0


From 7b5a177b38121d4d1255985e734426f638ce4dd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:47 +0000
Subject: [PATCH 10/40] fix: SafeDatabase::begin and end read the map before
 locking the database

---
 .../cpp_utils/collection/database/impl/SafeDatabase.ipp       | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/cpp_utils/include/cpp_utils/collection/database/impl/SafeDatabase.ipp b/cpp_utils/include/cpp_utils/collection/database/impl/SafeDatabase.ipp
index e1b837e..4c9b113 100644
--- a/cpp_utils/include/cpp_utils/collection/database/impl/SafeDatabase.ipp
+++ b/cpp_utils/include/cpp_utils/collection/database/impl/SafeDatabase.ipp
@@ -94,12 +94,16 @@ SafeDatabaseIterator<Key, Value> SafeDatabase<Key, Value>::find(
 template <typename Key, typename Value>
 SafeDatabaseIterator<Key, Value> SafeDatabase<Key, Value>::begin() const
 {
+    std::shared_lock<std::shared_timed_mutex> _(mutex_);
+
     return SafeDatabaseIterator<Key, Value>(internal_db_.begin(), mutex_);
 }
 
 template <typename Key, typename Value>
 SafeDatabaseIterator<Key, Value> SafeDatabase<Key, Value>::end() const
 {
+    std::shared_lock<std::shared_timed_mutex> _(mutex_);
+
     return SafeDatabaseIterator<Key, Value>(internal_db_.end(), mutex_);
 }
 
-- 
2.43.0


From 38a1e7ce876187217c4f049db25b015cf682291d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:47 +0000
Subject: [PATCH 11/40] fix: copies of a SafeDatabaseIterator unlocked the
 database without having locked it

---
 .../cpp_utils/collection/database/SafeDatabase.hpp        | 4 ++++
 .../cpp_utils/collection/database/impl/SafeDatabase.ipp   | 8 ++++++++
 2 files changed, 12 insertions(+)

diff --git a/cpp_utils/include/cpp_utils/collection/database/SafeDatabase.hpp b/cpp_utils/include/cpp_utils/collection/database/SafeDatabase.hpp
index 63a7c0f..fb4416e 100644
--- a/cpp_utils/include/cpp_utils/collection/database/SafeDatabase.hpp
+++ b/cpp_utils/include/cpp_utils/collection/database/SafeDatabase.hpp
@@ -54,6 +54,10 @@ public:
             typename std::map<Key, Value>::const_iterator it,
             std::shared_timed_mutex& mutex);
 
+    //! Copy constructor. The new iterator locks the database on its own.
+    SafeDatabaseIterator(
+            const SafeDatabaseIterator& other);
+
     ~SafeDatabaseIterator();
 
 private:
diff --git a/cpp_utils/include/cpp_utils/collection/database/impl/SafeDatabase.ipp b/cpp_utils/include/cpp_utils/collection/database/impl/SafeDatabase.ipp
index 4c9b113..d25aa81 100644
--- a/cpp_utils/include/cpp_utils/collection/database/impl/SafeDatabase.ipp
+++ b/cpp_utils/include/cpp_utils/collection/database/impl/SafeDatabase.ipp
@@ -28,6 +28,14 @@ SafeDatabaseIterator<Key, Value>::SafeDatabaseIterator(
     mutex_.lock_shared();
 }
 
+template <typename Key, typename Value>
+SafeDatabaseIterator<Key, Value>::SafeDatabaseIterator(
+        const SafeDatabaseIterator& other)
+    : SafeDatabaseIterator(other, other.mutex_)
+{
+    // The mutex is locked in the target constructor, as it is unlocked in the destructor of each iterator
+}
+
 template <typename Key, typename Value>
 SafeDatabaseIterator<Key, Value>::~SafeDatabaseIterator()
 {
-- 
2.43.0


From 0a5454f4a01f6bf68d3112c5f3f33183ded1b445 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:44 +0000
Subject: [PATCH 12/40] fix: assigning to a GuardedPtr left locked for ever the
 data it guarded

---
 .../include/cpp_utils/memory/impl/GuardedPtr.hpp |  2 +-
 .../include/cpp_utils/memory/impl/GuardedPtr.ipp | 16 ++++++++++++++++
 2 files changed, 17 insertions(+), 1 deletion(-)

diff --git a/cpp_utils/include/cpp_utils/memory/impl/GuardedPtr.hpp b/cpp_utils/include/cpp_utils/memory/impl/GuardedPtr.hpp
index 239dc42..339ad4c 100644
--- a/cpp_utils/include/cpp_utils/memory/impl/GuardedPtr.hpp
+++ b/cpp_utils/include/cpp_utils/memory/impl/GuardedPtr.hpp
@@ -65,7 +65,7 @@ public:
 
     //! Move operator not allowed
     GuardedPtr<T>& operator =(
-            GuardedPtr<T>&& other) noexcept = default;
+            GuardedPtr<T>&& other) noexcept;
 
     //! Unlock the shared mutex
     ~GuardedPtr();
diff --git a/cpp_utils/include/cpp_utils/memory/impl/GuardedPtr.ipp b/cpp_utils/include/cpp_utils/memory/impl/GuardedPtr.ipp
index fd54366..c6fb0e9 100644
--- a/cpp_utils/include/cpp_utils/memory/impl/GuardedPtr.ipp
+++ b/cpp_utils/include/cpp_utils/memory/impl/GuardedPtr.ipp
@@ -41,6 +41,22 @@ GuardedPtr<T>::~GuardedPtr()
     }
 }
 
+template<typename T>
+GuardedPtr<T>& GuardedPtr<T>::operator =(
+        GuardedPtr<T>&& other) noexcept
+{
+    if (this != &other)
+    {
+        // The data guarded until now must be unlocked before guarding the new one
+        if (data_reference_)
+        {
+            data_reference_->unlock_shared();
+        }
+        data_reference_ = std::move(other.data_reference_);
+    }
+    return *this;
+}
+
 template<typename T>
 T* GuardedPtr<T>::operator ->() const noexcept
 {
-- 
2.43.0


From 7fb14d1a4e8422cfcbd53380171a8dd62887b20b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:55 +0000
Subject: [PATCH 13/40] fix: data race asking a lessee whether its data is
 valid while the owner releases it

---
 cpp_utils/include/cpp_utils/memory/impl/InternalPtrData.hpp | 3 ++-
 cpp_utils/include/cpp_utils/memory/impl/InternalPtrData.ipp | 4 ++--
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/cpp_utils/include/cpp_utils/memory/impl/InternalPtrData.hpp b/cpp_utils/include/cpp_utils/memory/impl/InternalPtrData.hpp
index c921b84..f908ea8 100644
--- a/cpp_utils/include/cpp_utils/memory/impl/InternalPtrData.hpp
+++ b/cpp_utils/include/cpp_utils/memory/impl/InternalPtrData.hpp
@@ -20,6 +20,7 @@
 
 #pragma once
 
+#include <atomic>
 #include <memory>
 #include <mutex>
 #include <shared_mutex>
@@ -126,7 +127,7 @@ protected:
     ////////////////////////////
 
     //! Pointer to the internal data
-    T* reference_;
+    std::atomic<T*> reference_;
 
     //! Mutex to guard the data while using or destroying it
     mutable std::shared_timed_mutex shared_mutex_;
diff --git a/cpp_utils/include/cpp_utils/memory/impl/InternalPtrData.ipp b/cpp_utils/include/cpp_utils/memory/impl/InternalPtrData.ipp
index 9dc8815..d56671e 100644
--- a/cpp_utils/include/cpp_utils/memory/impl/InternalPtrData.ipp
+++ b/cpp_utils/include/cpp_utils/memory/impl/InternalPtrData.ipp
@@ -37,7 +37,7 @@ InternalPtrData<T>::InternalPtrData() noexcept
 template<typename T>
 InternalPtrData<T>::InternalPtrData(
         InternalPtrData&& other) noexcept
-    : reference_(std::move(other.reference_))
+    : reference_(other.reference_.load())
     , shared_mutex_(std::move(other.shared_mutex_))
     , deleter_(std::move(other.deleter_))
 {
@@ -79,7 +79,7 @@ T* InternalPtrData<T>::operator ->() const noexcept
 template<typename T>
 T& InternalPtrData<T>::operator *() const noexcept
 {
-    return *reference_;
+    return *reference_.load();
 }
 
 template<typename T>
-- 
2.43.0


From 5bf0537dd3c7240b1a92f703049d6ac72e4f5936 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:34 +0000
Subject: [PATCH 14/40] fix: Builder::refactor_values from a map of keys did
 not compile when used

---
 cpp_utils/include/cpp_utils/types/impl/Builder.ipp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cpp_utils/include/cpp_utils/types/impl/Builder.ipp b/cpp_utils/include/cpp_utils/types/impl/Builder.ipp
index ac6e4d2..57e1c3b 100644
--- a/cpp_utils/include/cpp_utils/types/impl/Builder.ipp
+++ b/cpp_utils/include/cpp_utils/types/impl/Builder.ipp
@@ -45,7 +45,7 @@ template <typename Key, typename Value>
 void Builder<Key, Value>::refactor_values(
         const std::map<Key, Value>& keys_to_values)
 {
-    values_ = indexed_map_from_values_to_keys_(keys_to_values);
+    values_ = keys_to_values;
 }
 
 template <typename Key, typename Value>
-- 
2.43.0


From 1aedfbb107dbdeea3b88d22338c086c53f02e1c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:17 +0000
Subject: [PATCH 15/40] fix: a WaitHandler could be destroyed while a thread
 that finished waiting was still using it

---
 cpp_utils/include/cpp_utils/wait/impl/WaitHandler.ipp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/cpp_utils/include/cpp_utils/wait/impl/WaitHandler.ipp b/cpp_utils/include/cpp_utils/wait/impl/WaitHandler.ipp
index 9636bfa..1a95d15 100644
--- a/cpp_utils/include/cpp_utils/wait/impl/WaitHandler.ipp
+++ b/cpp_utils/include/cpp_utils/wait/impl/WaitHandler.ipp
@@ -110,6 +110,10 @@ void WaitHandler<T>::blocking_disable() noexcept
         // Notify in case there are still threads waiting to be awaken
         wait_condition_variable_.notify_all();
     }
+
+    // A thread that finishes waiting decreases threads_waiting_ with the mutex taken, and keeps it taken while it uses
+    // this object. Take it so this object can be destroyed afterwards.
+    std::lock_guard<std::mutex> waiting_lock(wait_condition_variable_mutex_);
 }
 
 template <typename T>
-- 
2.43.0


From f5dcebf222ef5339d8669b5541ae8d9258f85cef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:10 +0000
Subject: [PATCH 16/40] fix: threads in wait_threshold_reached were not awaken
 by disabling the handler nor by increasing its value

---
 .../include/cpp_utils/wait/CounterWaitHandler.hpp   |  4 +++-
 cpp_utils/src/cpp/wait/CounterWaitHandler.cpp       | 13 +++++++++++++
 2 files changed, 16 insertions(+), 1 deletion(-)

diff --git a/cpp_utils/include/cpp_utils/wait/CounterWaitHandler.hpp b/cpp_utils/include/cpp_utils/wait/CounterWaitHandler.hpp
index f5ea137..8f7815e 100644
--- a/cpp_utils/include/cpp_utils/wait/CounterWaitHandler.hpp
+++ b/cpp_utils/include/cpp_utils/wait/CounterWaitHandler.hpp
@@ -75,12 +75,14 @@ public:
 
     // Make this methods public
     using WaitHandler<CounterType>::enable;
-    using WaitHandler<CounterType>::disable;
     using WaitHandler<CounterType>::blocking_disable;
     using WaitHandler<CounterType>::enabled;
     using WaitHandler<CounterType>::get_value;
     using WaitHandler<CounterType>::stop_and_continue;
 
+    //! Override \c WaitHandler method to also awake threads waiting in \c wait_threshold_reached
+    CPP_UTILS_DllAPI virtual void disable() noexcept override;
+
     /////
     // Wait methods
 
diff --git a/cpp_utils/src/cpp/wait/CounterWaitHandler.cpp b/cpp_utils/src/cpp/wait/CounterWaitHandler.cpp
index 8a7ee17..78bcb9c 100644
--- a/cpp_utils/src/cpp/wait/CounterWaitHandler.cpp
+++ b/cpp_utils/src/cpp/wait/CounterWaitHandler.cpp
@@ -36,6 +36,14 @@ CounterWaitHandler::CounterWaitHandler(
 
 CounterWaitHandler::~CounterWaitHandler()
 {
+    // Threads waiting in threshold_reached_cv_ must finish before it is destroyed
+    blocking_disable();
+}
+
+void CounterWaitHandler::disable() noexcept
+{
+    WaitHandler<CounterType>::disable();
+    threshold_reached_cv_.notify_all();
 }
 
 AwakeReason CounterWaitHandler::wait_and_decrement(
@@ -133,6 +141,11 @@ CounterWaitHandler& CounterWaitHandler::operator ++()
         {
             wait_condition_variable_.notify_one();
         }
+        // If the threshold is reached from below, notify threads waiting for this event
+        else if (value_ == threshold_)
+        {
+            threshold_reached_cv_.notify_all();
+        }
     }
 
     return *this;
-- 
2.43.0


From b28883705cab2cc7f4b8c7999521a5cbe1a801dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:38 +0000
Subject: [PATCH 17/40] fix: wait_for_event read the counter of a handler that
 unset_callback had already let be destroyed

---
 cpp_utils/include/cpp_utils/event/impl/EventHandler.ipp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/cpp_utils/include/cpp_utils/event/impl/EventHandler.ipp b/cpp_utils/include/cpp_utils/event/impl/EventHandler.ipp
index 275a077..d49eef5 100644
--- a/cpp_utils/include/cpp_utils/event/impl/EventHandler.ipp
+++ b/cpp_utils/include/cpp_utils/event/impl/EventHandler.ipp
@@ -121,10 +121,10 @@ template <typename ... Args>
 bool EventHandler<Args...>::wait_for_event(
         uint32_t n /*= 1*/) const noexcept
 {
+    std::unique_lock<std::mutex> lock(wait_mutex_);
+
     if (is_callback_set_.load())
     {
-        std::unique_lock<std::mutex> lock(wait_mutex_);
-
         ++threads_waiting_;
 
         wait_condition_variable_.wait(
@@ -140,7 +140,8 @@ bool EventHandler<Args...>::wait_for_event(
     }
 
     // Return true if the condition has been fulfilled. It could stop due to an unset callback
-    // Note: number_of_events_registered_ does not required a mutex because it is being read and it is atomic
+    // Note: this must be read while the mutex is still taken. Once it is released the object may be destroyed by a
+    // thread in unset_callback, and the counter may be reset.
     return number_of_events_registered_.load() >= n;
 }
 
-- 
2.43.0


From 26a44d748290c3a1ba67b8387c1c4b10d7f8505e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:15 +0000
Subject: [PATCH 18/40] fix: a SlotThreadPool enabled again after being
 disabled did not execute any task

---
 cpp_utils/src/cpp/thread_pool/pool/SlotThreadPool.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/cpp_utils/src/cpp/thread_pool/pool/SlotThreadPool.cpp b/cpp_utils/src/cpp/thread_pool/pool/SlotThreadPool.cpp
index 10ad615..0f961bd 100644
--- a/cpp_utils/src/cpp/thread_pool/pool/SlotThreadPool.cpp
+++ b/cpp_utils/src/cpp/thread_pool/pool/SlotThreadPool.cpp
@@ -51,6 +51,9 @@ void SlotThreadPool::enable() noexcept
 {
     if (!enabled_.exchange(true))
     {
+        // Enable Task Queue in case it was disabled, otherwise the threads would finish without executing any task
+        task_queue_.enable();
+
         // Execute threads
         for (uint32_t i = 0; i < number_of_threads_; ++i)
         {
-- 
2.43.0


From 22f8d502dc3bc2d3b31aa44fb9b5279083f04fd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:04 +0000
Subject: [PATCH 19/40] fix: asking twice for the next command of an empty
 history read out of its bounds

---
 cpp_utils/src/cpp/history/CommandHistoryHandler.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cpp_utils/src/cpp/history/CommandHistoryHandler.cpp b/cpp_utils/src/cpp/history/CommandHistoryHandler.cpp
index dc0475f..4baeeee 100644
--- a/cpp_utils/src/cpp/history/CommandHistoryHandler.cpp
+++ b/cpp_utils/src/cpp/history/CommandHistoryHandler.cpp
@@ -45,12 +45,12 @@ std::string CommandHistoryHandler::get_previous_command()
 
 std::string CommandHistoryHandler::get_next_command()
 {
-    if (current_index_ < command_history_.size() - 1)
+    if (current_index_ + 1 < command_history_.size())
     {
         ++current_index_;
         return command_history_[current_index_];
     }
-    else if (current_index_ == command_history_.size() - 1)
+    else if (current_index_ + 1 == command_history_.size())
     {
         ++current_index_;
         return "";
-- 
2.43.0


From bd69ca7125de8dbc232a75ff6858b9a006876a26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:24 +0000
Subject: [PATCH 20/40] fix: a quoted argument of a command that starts with a
 space was not joined

---
 .../include/cpp_utils/user_interface/impl/CommandReader.ipp   | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cpp_utils/include/cpp_utils/user_interface/impl/CommandReader.ipp b/cpp_utils/include/cpp_utils/user_interface/impl/CommandReader.ipp
index 3260a5d..3f7ade4 100644
--- a/cpp_utils/include/cpp_utils/user_interface/impl/CommandReader.ipp
+++ b/cpp_utils/include/cpp_utils/user_interface/impl/CommandReader.ipp
@@ -64,9 +64,9 @@ std::vector<std::string> CommandReader<CommandEnum>::join_quoted_strings(
         {
             std::string joined = input[i];
 
-            // Keep joining until we find a string ending with a quote
+            // Keep joining until we find a string ending with a quote (other than the opening one)
             while (i + 1 < input.size() &&
-                    (joined.empty() || joined.back() != '"'))
+                    (joined.size() < 2 || joined.back() != '"'))
             {
                 joined += " " + input[++i];
             }
-- 
2.43.0


From 48572181c423e2ce10620fece6d5777f898ddfe7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:24 +0000
Subject: [PATCH 21/40] fix: browsing the history divided by zero when the
 standard output is not a terminal

---
 cpp_utils/src/cpp/event/StdinEventHandler.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/cpp_utils/src/cpp/event/StdinEventHandler.cpp b/cpp_utils/src/cpp/event/StdinEventHandler.cpp
index 0f03e18..4e95643 100644
--- a/cpp_utils/src/cpp/event/StdinEventHandler.cpp
+++ b/cpp_utils/src/cpp/event/StdinEventHandler.cpp
@@ -59,7 +59,11 @@ int get_terminal_width()
     return csbi.srWindow.Right - csbi.srWindow.Left + 1;
     #else
     struct winsize w;
-    ioctl(STDOUT_FILENO, TIOCGWINSZ, &w);
+    if (ioctl(STDOUT_FILENO, TIOCGWINSZ, &w) != 0 || w.ws_col == 0)
+    {
+        // Not a terminal, or a terminal of unknown size
+        return 80;
+    }
     return w.ws_col;
     #endif // if defined(_WIN32) || defined(_WIN64)
 }
-- 
2.43.0


From 145b12909b20806226af3e771d03974de25cd3bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:24 +0000
Subject: [PATCH 22/40] fix: StdinEventHandler never ended reading a line at
 the end of its input

---
 cpp_utils/src/cpp/event/StdinEventHandler.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cpp_utils/src/cpp/event/StdinEventHandler.cpp b/cpp_utils/src/cpp/event/StdinEventHandler.cpp
index 4e95643..aac7ac3 100644
--- a/cpp_utils/src/cpp/event/StdinEventHandler.cpp
+++ b/cpp_utils/src/cpp/event/StdinEventHandler.cpp
@@ -304,7 +304,7 @@ void StdinEventHandler::stdin_listener_thread_routine_() noexcept
                 {
                     case 72:  // Arrow up
 #else
-            char c;
+            int c;
             c = getchar(); // Read first character
             if (c == '\033')
             {
@@ -516,7 +516,7 @@ void StdinEventHandler::stdin_listener_thread_routine_() noexcept
                     }
                 }
             }
-            else if (c == '\n' || c == '\r')
+            else if (c == '\n' || c == '\r' || c == EOF)
             {
                 std::cout << std::endl;
                 event_occurred_(read_str);
-- 
2.43.0


From b54e225936a3e33ab02c091dc956c11dca60b4e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:24 +0000
Subject: [PATCH 23/40] fix: the depth of every tree was 0

---
 cpp_utils/include/cpp_utils/types/impl/Tree.ipp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cpp_utils/include/cpp_utils/types/impl/Tree.ipp b/cpp_utils/include/cpp_utils/types/impl/Tree.ipp
index 0fe699f..adb3b84 100644
--- a/cpp_utils/include/cpp_utils/types/impl/Tree.ipp
+++ b/cpp_utils/include/cpp_utils/types/impl/Tree.ipp
@@ -94,7 +94,7 @@ unsigned int TreeNode<Info>::depth() const noexcept
     unsigned int max_value = 0;
     for (const auto& b : branches_)
     {
-        auto child_value = b.depth();
+        auto child_value = b.depth() + 1;
         max_value = MAX(max_value, child_value);
     }
     return max_value;
-- 
2.43.0


From 53268303701ca3783969eb70d0163285f57152a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:44 +0000
Subject: [PATCH 24/40] fix: a CommandReader destroyed its queue before the
 thread that fills it had ended

---
 .../include/cpp_utils/user_interface/CommandReader.hpp | 10 +++++++---
 .../cpp_utils/user_interface/impl/CommandReader.ipp    |  2 +-
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/cpp_utils/include/cpp_utils/user_interface/CommandReader.hpp b/cpp_utils/include/cpp_utils/user_interface/CommandReader.hpp
index 59c08e0..f9f81c7 100644
--- a/cpp_utils/include/cpp_utils/user_interface/CommandReader.hpp
+++ b/cpp_utils/include/cpp_utils/user_interface/CommandReader.hpp
@@ -100,9 +100,6 @@ protected:
     //! Builder to transform string into a command enum value.
     EnumBuilder<CommandEnum> builder_;
 
-    //! Event Handler used to read from stdin.
-    event::StdinEventHandler stdin_handler_;
-
     /**
      * @brief Consumer where \c stdin_handler_ will produce commands read, and method \c read_next_command will
      * consume next command.
@@ -112,6 +109,13 @@ protected:
      */
     event::DBQueueWaitHandler<std::string> commands_read_;
 
+    /**
+     * @brief Event Handler used to read from stdin.
+     *
+     * @note It must be destroyed before \c commands_read_ , as its thread uses it.
+     */
+    event::StdinEventHandler stdin_handler_;
+
 public:
 
     event::StdinEventHandler& stdin_handler()
diff --git a/cpp_utils/include/cpp_utils/user_interface/impl/CommandReader.ipp b/cpp_utils/include/cpp_utils/user_interface/impl/CommandReader.ipp
index 3f7ade4..6870a09 100644
--- a/cpp_utils/include/cpp_utils/user_interface/impl/CommandReader.ipp
+++ b/cpp_utils/include/cpp_utils/user_interface/impl/CommandReader.ipp
@@ -24,6 +24,7 @@ CommandReader<CommandEnum>::CommandReader(
         const EnumBuilder<CommandEnum>& builder,
         std::istream& source /* = std::cin */)
     : builder_(builder)
+    , commands_read_(0, true)
     , stdin_handler_(
         [this](std::string st)
         {
@@ -32,7 +33,6 @@ CommandReader<CommandEnum>::CommandReader(
         true,
         0,
         source)
-    , commands_read_(0, true)
 {
     // Do nothing
 }
-- 
2.43.0


From 33b03af5b5451499c166663ade0eb7679552bbfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:53:45 +0000
Subject: [PATCH 25/40] fix: container_to_stream did not compile for elements
 that are not pointers

---
 cpp_utils/include/cpp_utils/impl/utils.ipp | 30 +++++++++++++++-------
 1 file changed, 21 insertions(+), 9 deletions(-)

diff --git a/cpp_utils/include/cpp_utils/impl/utils.ipp b/cpp_utils/include/cpp_utils/impl/utils.ipp
index 96f85b5..07d56f3 100644
--- a/cpp_utils/include/cpp_utils/impl/utils.ipp
+++ b/cpp_utils/include/cpp_utils/impl/utils.ipp
@@ -19,24 +19,36 @@
 #pragma once
 
 #include <cstring>
+#include <type_traits>
 
 namespace eprosima {
 namespace utils {
 
+template <typename T>
+std::ostream& element_to_stream_impl_(
+        std::ostream& os,
+        const T& element,
+        std::true_type /* Ptr */)
+{
+    return os << (*element);
+}
+
+template <typename T>
+std::ostream& element_to_stream_impl_(
+        std::ostream& os,
+        const T& element,
+        std::false_type /* Ptr */)
+{
+    return os << element;
+}
+
 template <typename T, bool Ptr /* = false */>
 std::ostream& element_to_stream(
         std::ostream& os,
         T element)
 {
-    if (Ptr)
-    {
-        os << (*element);
-    }
-    else
-    {
-        os << element;
-    }
-
+    // The not chosen option could not compile for type T
+    element_to_stream_impl_(os, element, std::integral_constant<bool, Ptr>());
     return os;
 }
 
-- 
2.43.0


From 04013898c41bc29970004daf75ead28754d9858b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:53:45 +0000
Subject: [PATCH 26/40] fix: are_set_of_ptr_equal compared in one direction
 only when a set has equal elements

---
 cpp_utils/include/cpp_utils/impl/utils.ipp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/cpp_utils/include/cpp_utils/impl/utils.ipp b/cpp_utils/include/cpp_utils/impl/utils.ipp
index 07d56f3..efaf400 100644
--- a/cpp_utils/include/cpp_utils/impl/utils.ipp
+++ b/cpp_utils/include/cpp_utils/impl/utils.ipp
@@ -141,6 +141,15 @@ bool are_set_of_ptr_equal(
         }
     }
 
+    // Check if every element in set2 is in set1, as several elements in set1 could be equal to the same one in set2
+    for (auto itr2 = set2.begin(); itr2 != set2.end(); itr2++)
+    {
+        if (!set_of_ptr_contains(set1, *itr2))
+        {
+            return false;
+        }
+    }
+
     return true;
 }
 
-- 
2.43.0


From 981b57f59909d0fe7e73edc02e75cdff7f1a5fd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:10:29 +0000
Subject: [PATCH 27/40] fix: conversions of Timestamps to dates shared a static
 buffer between threads

---
 cpp_utils/src/cpp/time/time_utils.cpp | 38 +++++++++++++++++----------
 1 file changed, 24 insertions(+), 14 deletions(-)

diff --git a/cpp_utils/src/cpp/time/time_utils.cpp b/cpp_utils/src/cpp/time/time_utils.cpp
index 77a5e02..7ce3bb0 100644
--- a/cpp_utils/src/cpp/time/time_utils.cpp
+++ b/cpp_utils/src/cpp/time/time_utils.cpp
@@ -35,6 +35,24 @@
 namespace eprosima {
 namespace utils {
 
+namespace {
+
+//! UTC (or local) date and time of \c time in \c tm . Unlike std::gmtime and std::localtime, it does not use the buffer
+//! that every thread shares.
+bool broken_down_time(
+        const time_t& time,
+        bool local_time,
+        std::tm& tm) noexcept
+{
+#if _EPROSIMA_WINDOWS_PLATFORM
+    return 0 == (local_time ? localtime_s(&tm, &time) : gmtime_s(&tm, &time));
+#else
+    return nullptr != (local_time ? localtime_r(&time, &tm) : gmtime_r(&time, &tm));
+#endif // if _EPROSIMA_WINDOWS_PLATFORM
+}
+
+} /* namespace */
+
 Timestamp now() noexcept
 {
     return Timeclock::now();
@@ -75,11 +93,11 @@ Timestamp time_to_timestamp(
         unsigned int minute /* = 0 */,
         unsigned int second /* = 0 */)
 {
-    std::tm tm;
+    std::tm tm{};
 
     // Initialise with current timestamp to set date
     time_t duration_seconds = normalize(Timeclock::to_time_t(now()));
-    tm = *std::gmtime(&duration_seconds);
+    broken_down_time(duration_seconds, false, tm);
 
     tm.tm_sec = static_cast<int>(second);
     tm.tm_min = static_cast<int>(minute);
@@ -96,23 +114,15 @@ std::string timestamp_to_string(
     std::ostringstream ss;
     time_t duration_seconds = normalize(Timeclock::to_time_t(timestamp));
 
-    std::tm* tm = nullptr;
-    if (local_time)
-    {
-        tm = std::localtime(&duration_seconds);
-    }
-    else
-    {
-        tm = std::gmtime(&duration_seconds);
-    }
+    std::tm tm{};
 
-    if (tm)
+    if (broken_down_time(duration_seconds, local_time, tm))
     {
-        ss << std::put_time(tm, format.c_str());
+        ss << std::put_time(&tm, format.c_str());
     }
     else
     {
-        // gmtime/localtime() returned null
+        // The broken-down time could not be calculated
         throw PreconditionNotMet(STR_ENTRY << "Format <" << format << "> to convert Timestamp to string is incorrect.");
     }
     return ss.str();
-- 
2.43.0


From f2a808a1acc667944f7855082794afaaaf33eef3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:10:29 +0000
Subject: [PATCH 28/40] fix: string_to_timestamp refused the last second before
 1970

---
 cpp_utils/src/cpp/time/time_utils.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/cpp_utils/src/cpp/time/time_utils.cpp b/cpp_utils/src/cpp/time/time_utils.cpp
index 7ce3bb0..605a764 100644
--- a/cpp_utils/src/cpp/time/time_utils.cpp
+++ b/cpp_utils/src/cpp/time/time_utils.cpp
@@ -143,6 +143,9 @@ Timestamp string_to_timestamp(
                       ".");
     }
 
+    // In case of success the conversion sets the day of the week. NOTE: -1 is also the second before 1970
+    tm.tm_wday = -1;
+
     std::time_t utc_time;
     if (local_time)
     {
@@ -162,7 +165,7 @@ Timestamp string_to_timestamp(
         utc_time = timegm(&tm);
     }
 
-    if ((time_t)-1 == utc_time)
+    if ((time_t)-1 == utc_time && tm.tm_wday < 0)
     {
         throw ValueNotAllowedException(
                   STR_ENTRY << "Failed to convert string to timestamp");
-- 
2.43.0


From 7eed2f8ed09a00d8f038c3136bacbc8fbd5ff06c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:10:57 +0000
Subject: [PATCH 29/40] fix: string_to_timestamp overflowed for dates that a
 Timestamp cannot represent

---
 cpp_utils/src/cpp/time/time_utils.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/cpp_utils/src/cpp/time/time_utils.cpp b/cpp_utils/src/cpp/time/time_utils.cpp
index 605a764..b6a0f3a 100644
--- a/cpp_utils/src/cpp/time/time_utils.cpp
+++ b/cpp_utils/src/cpp/time/time_utils.cpp
@@ -171,6 +171,12 @@ Timestamp string_to_timestamp(
                   STR_ENTRY << "Failed to convert string to timestamp");
     }
 
+    if (utc_time < Timeclock::to_time_t(the_beginning_of_time()) || utc_time > Timeclock::to_time_t(the_end_of_time()))
+    {
+        throw ValueNotAllowedException(
+                  STR_ENTRY << "Failed to convert string to timestamp, it is beyond the times that can be represented");
+    }
+
     return Timeclock::from_time_t(utc_time);
 }
 
-- 
2.43.0


From c1184c2054ac0dc9973a48f35c27ae877be43ad9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:20:43 +0000
Subject: [PATCH 30/40] fix: SignalManager.hpp could not be included in two
 translation units

---
 cpp_utils/include/cpp_utils/event/impl/SignalManager.ipp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cpp_utils/include/cpp_utils/event/impl/SignalManager.ipp b/cpp_utils/include/cpp_utils/event/impl/SignalManager.ipp
index 224e644..670b39a 100644
--- a/cpp_utils/include/cpp_utils/event/impl/SignalManager.ipp
+++ b/cpp_utils/include/cpp_utils/event/impl/SignalManager.ipp
@@ -176,7 +176,7 @@ void SignalManager<SigVal>::signal_handler_thread_routine_() noexcept
     }
 }
 
-std::ostream& operator <<(
+inline std::ostream& operator <<(
         std::ostream& os,
         const Signal& sigval)
 {
-- 
2.43.0


From 7f14200d6f16feaa1499a1c404acb1ed33e1a1d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:20:43 +0000
Subject: [PATCH 31/40] fix: a signal received just before the signal thread
 waits was not handled until the next one

---
 cpp_utils/include/cpp_utils/event/impl/SignalManager.ipp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/cpp_utils/include/cpp_utils/event/impl/SignalManager.ipp b/cpp_utils/include/cpp_utils/event/impl/SignalManager.ipp
index 670b39a..baef888 100644
--- a/cpp_utils/include/cpp_utils/event/impl/SignalManager.ipp
+++ b/cpp_utils/include/cpp_utils/event/impl/SignalManager.ipp
@@ -20,6 +20,7 @@
 #pragma once
 
 #include <algorithm>
+#include <chrono>
 #include <thread>
 
 #include <cpp_utils/exception/InconsistencyException.hpp>
@@ -156,8 +157,11 @@ void SignalManager<SigVal>::signal_handler_thread_routine_() noexcept
     while (!signal_handler_thread_stop_.load())
     {
         std::unique_lock<std::mutex> lock(signal_received_cv_mutex_);
-        signal_received_cv_.wait(
+        // The signal handler cannot take the mutex, so it may notify after the counter has been checked and before this
+        // thread waits. Thus check the counter again from time to time, so such signal does not wait for the next one.
+        signal_received_cv_.wait_for(
             lock,
+            std::chrono::milliseconds(100),
             [this]
             {
                 return signals_received_.load() > 0 ||
-- 
2.43.0


From e699be5436fde7617e0a84afbd4b03a18c0b62db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:35:27 +0000
Subject: [PATCH 32/40] fix: a LogEventHandler destroyed its entries while the
 Log thread could still be adding one

---
 cpp_utils/src/cpp/event/logging/LogEventHandler.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/cpp_utils/src/cpp/event/logging/LogEventHandler.cpp b/cpp_utils/src/cpp/event/logging/LogEventHandler.cpp
index 029d2e6..6712d2e 100644
--- a/cpp_utils/src/cpp/event/logging/LogEventHandler.cpp
+++ b/cpp_utils/src/cpp/event/logging/LogEventHandler.cpp
@@ -52,6 +52,9 @@ LogEventHandler::LogEventHandler(
 LogEventHandler::~LogEventHandler()
 {
     unset_callback();
+
+    // The Log thread may be in consume_ now. Wait for it and do not let it in again before any other member is destroyed
+    connection_callback_.reset();
 }
 
 void LogEventHandler::consume_(
-- 
2.43.0


From cda7bed8fd005ad6f5b041eb4d851da9994ada33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:35:27 +0000
Subject: [PATCH 33/40] fix: the callback of a LogSevereEventHandler could be
 called with entries below its threshold while it was made or destroyed

---
 .../cpp_utils/event/LogSevereEventHandler.hpp        |  7 +++++++
 .../src/cpp/event/logging/LogSevereEventHandler.cpp  | 12 +++++++++++-
 2 files changed, 18 insertions(+), 1 deletion(-)

diff --git a/cpp_utils/include/cpp_utils/event/LogSevereEventHandler.hpp b/cpp_utils/include/cpp_utils/event/LogSevereEventHandler.hpp
index a3e6f61..3bfe7fb 100644
--- a/cpp_utils/include/cpp_utils/event/LogSevereEventHandler.hpp
+++ b/cpp_utils/include/cpp_utils/event/LogSevereEventHandler.hpp
@@ -48,6 +48,13 @@ public:
             std::function<void(utils::Log::Entry)> callback,
             const utils::Log::Kind threshold = utils::Log::Kind::Warning);
 
+    /**
+     * @brief Destroy the LogSevereEventHandler object
+     *
+     * Calls \c unset_callback
+     */
+    CPP_UTILS_DllAPI ~LogSevereEventHandler();
+
 protected:
 
     //! Override parent \c consume_ method but only consuming logs above the \c threshold_ kind.
diff --git a/cpp_utils/src/cpp/event/logging/LogSevereEventHandler.cpp b/cpp_utils/src/cpp/event/logging/LogSevereEventHandler.cpp
index 8b14501..f9b16f5 100644
--- a/cpp_utils/src/cpp/event/logging/LogSevereEventHandler.cpp
+++ b/cpp_utils/src/cpp/event/logging/LogSevereEventHandler.cpp
@@ -26,7 +26,7 @@ namespace event {
 LogSevereEventHandler::LogSevereEventHandler(
         std::function<void(utils::Log::Entry)> callback,
         utils::Log::Kind threshold /* = utils::Log::Kind::Warning */)
-    : LogEventHandler(callback)
+    : LogEventHandler()
     , threshold_(threshold)
 {
     // If threshold is lower than default log level (ERROR) set the filter lower
@@ -34,6 +34,16 @@ LogSevereEventHandler::LogSevereEventHandler(
     {
         utils::Log::SetVerbosity(threshold);
     }
+
+    // Set the callback once this object filters the entries, so it is never called with one that is not severe
+    set_callback(callback);
+}
+
+LogSevereEventHandler::~LogSevereEventHandler()
+{
+    // Once this object is destroyed the entries are no longer filtered, so none must arrive
+    unset_callback();
+    connection_callback_.reset();
 }
 
 void LogSevereEventHandler::consume_(
-- 
2.43.0


From 45d02cf36101f55237e3f64f32bf0ca8cb2e4615 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:35:27 +0000
Subject: [PATCH 34/40] fix: a LogSevereEventHandler hid the entries that are
 less severe from every other LogEventHandler

---
 cpp_utils/src/cpp/event/logging/LogSevereEventHandler.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cpp_utils/src/cpp/event/logging/LogSevereEventHandler.cpp b/cpp_utils/src/cpp/event/logging/LogSevereEventHandler.cpp
index f9b16f5..73f559d 100644
--- a/cpp_utils/src/cpp/event/logging/LogSevereEventHandler.cpp
+++ b/cpp_utils/src/cpp/event/logging/LogSevereEventHandler.cpp
@@ -29,8 +29,8 @@ LogSevereEventHandler::LogSevereEventHandler(
     : LogEventHandler()
     , threshold_(threshold)
 {
-    // If threshold is lower than default log level (ERROR) set the filter lower
-    if (threshold > utils::Log::Kind::Error)
+    // If threshold is lower than current log level set the filter lower
+    if (threshold > utils::Log::GetVerbosity())
     {
         utils::Log::SetVerbosity(threshold);
     }
-- 
2.43.0


From 28b5274661388b0d6ec7a94b80d46ec2ea3bb9bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:32:14 +0000
Subject: [PATCH 35/40] fix: the text of a Formatter ended at its first null
 character

---
 cpp_utils/src/cpp/Formatter.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cpp_utils/src/cpp/Formatter.cpp b/cpp_utils/src/cpp/Formatter.cpp
index 2182a2b..b709558 100644
--- a/cpp_utils/src/cpp/Formatter.cpp
+++ b/cpp_utils/src/cpp/Formatter.cpp
@@ -29,7 +29,7 @@ Formatter::operator std::string () const noexcept
 
 std::string Formatter::to_string() const noexcept
 {
-    return ss_.str().c_str();
+    return ss_.str();
 }
 
 std::ostream& operator <<(
-- 
2.43.0


From 701150d31aead44461d5a04fdabb67b3d738fc37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:03:49 +0000
Subject: [PATCH 36/40] fix: file_to_strings read a directory, or a file whose
 reading fails, as a file that ends there

---
 cpp_utils/src/cpp/file/file_utils.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/cpp_utils/src/cpp/file/file_utils.cpp b/cpp_utils/src/cpp/file/file_utils.cpp
index 62ed79e..fb33e51 100644
--- a/cpp_utils/src/cpp/file/file_utils.cpp
+++ b/cpp_utils/src/cpp/file/file_utils.cpp
@@ -71,6 +71,13 @@ std::vector<std::string> file_to_strings(
         }
     }
 
+    // A file may be opened but not read (e.g. a directory)
+    if (file.bad())
+    {
+        throw PreconditionNotMet(
+                  STR_ENTRY << "File <" << file_name << "> could not be read.");
+    }
+
     return result;
 }
 
-- 
2.43.0


From 102dbdfb0c314339199f2144948ac0274db72a91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:03:49 +0000
Subject: [PATCH 37/40] fix: a FileWatch that could not be made left open its
 inotify instance

---
 thirdparty/filewatch/FileWatch.hpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/thirdparty/filewatch/FileWatch.hpp b/thirdparty/filewatch/FileWatch.hpp
index f8b62d5..a5e8df7 100644
--- a/thirdparty/filewatch/FileWatch.hpp
+++ b/thirdparty/filewatch/FileWatch.hpp
@@ -516,6 +516,8 @@ private:
     FolderInfo get_directory(
             const T& path)
     {
+        _watching_single_file = is_file(path);
+
         const auto folder = inotify_init();
         if (folder < 0)
         {
@@ -523,8 +525,6 @@ private:
         }
         // const auto listen_filters = _listen_filters;  // Unused variable
 
-        _watching_single_file = is_file(path);
-
         const T watch_path = [this, &path]()
                 {
                     if (_watching_single_file)
@@ -543,7 +543,9 @@ private:
         const auto watch = inotify_add_watch(folder, watch_path.c_str(), IN_MODIFY | IN_CREATE | IN_DELETE);
         if (watch < 0)
         {
-            throw std::system_error(errno, std::system_category());
+            const auto error = errno;
+            close(folder);
+            throw std::system_error(error, std::system_category());
         }
         return { folder, watch };
     }
-- 
2.43.0


From 9bf1b0ba2578c161f097d5ce21a3c19d662e3f4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:03:49 +0000
Subject: [PATCH 38/40] fix: a FileWatch whose directory was removed could not
 be destroyed

---
 thirdparty/filewatch/FileWatch.hpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/thirdparty/filewatch/FileWatch.hpp b/thirdparty/filewatch/FileWatch.hpp
index a5e8df7..5e5e332 100644
--- a/thirdparty/filewatch/FileWatch.hpp
+++ b/thirdparty/filewatch/FileWatch.hpp
@@ -554,8 +554,10 @@ private:
     {
         std::vector<char> buffer(_buffer_size);
 
+        bool watching = true;
+
         _running.set_value();
-        while (_destory == false)
+        while (watching && _destory == false)
         {
             const auto length = read(_directory.folder, static_cast<void*>(buffer.data()), buffer.size());
             if (length > 0)
@@ -565,6 +567,11 @@ private:
                 while (i < length)
                 {
                     struct inotify_event* event = reinterpret_cast<struct inotify_event*>(&buffer[i]);      // NOLINT
+                    if (event->mask & IN_IGNORED)
+                    {
+                        // What was watched is not watched any more (e.g. it was removed): nothing else will be read
+                        watching = false;
+                    }
                     if (event->len)
                     {
                         const UnderpinningString changed_file{ event->name };
-- 
2.43.0


From 910aa6c7e53dafec526627e63884ee179eb86202 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:03:49 +0000
Subject: [PATCH 39/40] fix: the callback thread of a FileWatch could miss that
 it is being destroyed and wait for ever

---
 thirdparty/filewatch/FileWatch.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/thirdparty/filewatch/FileWatch.hpp b/thirdparty/filewatch/FileWatch.hpp
index 5e5e332..721432f 100644
--- a/thirdparty/filewatch/FileWatch.hpp
+++ b/thirdparty/filewatch/FileWatch.hpp
@@ -266,7 +266,11 @@ private:
 
     void destroy()
     {
-        _destory = true;
+        {
+            // The callback thread must not miss it between checking whether it should wait and waiting
+            std::lock_guard<std::mutex> lock(_callback_mutex);
+            _destory = true;
+        }
         _running = std::promise<void>();
 #ifdef _WIN32
         SetEvent(_close_event);
-- 
2.43.0


From a8a8946dcdcb9f57be6bde4e555f612ca236ea10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:15:38 +0000
Subject: [PATCH 40/40] fix: count each element of a pool when it is stored, so
 a failed creation loses none

When new_element_ threw in the middle of a batch, the elements created
before it were stored but not counted as reserved, so returning the
loans of them was refused later on.
---
 cpp_utils/include/cpp_utils/pool/impl/UnboundedPool.ipp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cpp_utils/include/cpp_utils/pool/impl/UnboundedPool.ipp b/cpp_utils/include/cpp_utils/pool/impl/UnboundedPool.ipp
index cfb0317..8b198c4 100644
--- a/cpp_utils/include/cpp_utils/pool/impl/UnboundedPool.ipp
+++ b/cpp_utils/include/cpp_utils/pool/impl/UnboundedPool.ipp
@@ -113,8 +113,9 @@ void UnboundedPool<T>::augment_free_values_(
     {
         auto new_element = this->new_element_();
         this->elements_.push_back(new_element);
+        // Count each element once it is stored, as creating the next one could throw
+        ++reserved_;
     }
-    reserved_ += new_values_count;
     logDebug(
         LIMITLESS_POOL,
         "Pool " << TYPE_NAME(T) << " [" << this << "] augmented in "
-- 
2.43.0

