From 0a6e8123deb88aec9f0d37383315c1f019bccbda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:04 +0000
Subject: [PATCH 01/28] fix: release the TimeVortexPQ lock when popping an
 empty thread-safe queue

---
 src/sst/core/impl/timevortex/timeVortexPQ.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/sst/core/impl/timevortex/timeVortexPQ.cc b/src/sst/core/impl/timevortex/timeVortexPQ.cc
index 7d75427..21fd6ff 100644
--- a/src/sst/core/impl/timevortex/timeVortexPQ.cc
+++ b/src/sst/core/impl/timevortex/timeVortexPQ.cc
@@ -76,7 +76,10 @@ Activity*
 TimeVortexPQBase<TS>::pop()
 {
     if constexpr ( TS ) slock.lock();
-    if ( data.empty() ) return nullptr;
+    if ( data.empty() ) {
+        if constexpr ( TS ) slock.unlock();
+        return nullptr;
+    }
     Activity* ret_val = data.top();
     data.pop();
     current_depth--;
-- 
2.43.0


From b0540f3cb63402ca29adad988237040d29a408a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:46 +0000
Subject: [PATCH 02/28] fix: do not use the activity that caused a time fault
 after it has been executed (and possibly deleted)

---
 src/sst/core/simulation.cc | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/sst/core/simulation.cc b/src/sst/core/simulation.cc
index 5589aa7..2c7f747 100644
--- a/src/sst/core/simulation.cc
+++ b/src/sst/core/simulation.cc
@@ -1095,7 +1095,11 @@ Simulation::run()
     // run loop, we will check for a time fault, but will execute the
     // next event and only exit the run loop on the next iteration.
     // If there was a fault, a message will be printed.
-    bool time_fault = false;
+    bool        time_fault = false;
+    // Description of the activity which caused the time fault.  Must be
+    // recorded before the activity executes because activities (events
+    // and StopActions, for example) may be deleted during execution.
+    std::string fault_activity;
     while ( LIKELY(!endSim && !time_fault) ) {
 
         current_activity     = timeVortex->pop();
@@ -1103,6 +1107,7 @@ Simulation::run()
         SimTime_t event_time = current_activity->getDeliveryTime();
 
         time_fault = event_time < currentSimCycle;
+        if ( UNLIKELY(time_fault) ) fault_activity = current_activity->toString();
 
         currentSimCycle = event_time;
 
@@ -1159,7 +1164,7 @@ Simulation::run()
             "likely cause of this is that the 64-bit core time had an overflow condition.  This is typically caused by "
             "having low frequency events with too low of a timebase.  See the extended help for --timebase option (sst "
             "--help timebase)\nLast activity executed: %s\n",
-            current_activity->toString().c_str());
+            fault_activity.c_str());
     }
     /* We shouldn't need to do this, but to be safe... */
 
-- 
2.43.0


From 2a3d3c5a55f45a00d0c0bd9465c0649de3df7238 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:55:35 +0000
Subject: [PATCH 03/28] fix: decimal_fixedpoint::toUnsignedLong converts the
 whole words, not the lowest words

---
 src/sst/core/decimal_fixedpoint.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sst/core/decimal_fixedpoint.h b/src/sst/core/decimal_fixedpoint.h
index 4129258..e92993e 100644
--- a/src/sst/core/decimal_fixedpoint.h
+++ b/src/sst/core/decimal_fixedpoint.h
@@ -394,7 +394,7 @@ public:
         uint64_t ret    = 0;
         uint64_t factor = 1;
         for ( int i = 0; i < whole_words; ++i ) {
-            ret += (static_cast<int64_t>(data[i]) * factor);
+            ret += (static_cast<uint64_t>(data[fraction_words + i]) * factor);
             factor *= storage_radix;
         }
         return ret;
-- 
2.43.0


From 8e4916a0022a85e98a93d94dec809deb10f616f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:55:35 +0000
Subject: [PATCH 04/28] fix: decimal_fixedpoint comparisons take the sign into
 account

---
 src/sst/core/decimal_fixedpoint.h | 89 +++++++++++++++----------------
 1 file changed, 42 insertions(+), 47 deletions(-)

diff --git a/src/sst/core/decimal_fixedpoint.h b/src/sst/core/decimal_fixedpoint.h
index e92993e..06424cb 100644
--- a/src/sst/core/decimal_fixedpoint.h
+++ b/src/sst/core/decimal_fixedpoint.h
@@ -193,6 +193,41 @@ private:
         }
     }
 
+    /**
+       Compare the magnitudes (signs are ignored) of two numbers
+
+       @param v Number to compare to
+
+       @return -1, 0 or 1 if the magnitude of this number is less
+       than, equal to or greater than the magnitude of v
+     */
+    int compare_magnitude(const decimal_fixedpoint& v) const
+    {
+        for ( int i = whole_words + fraction_words - 1; i >= 0; --i ) {
+            if ( data[i] > v.data[i] ) return 1;
+            if ( data[i] < v.data[i] ) return -1;
+        }
+        return 0;
+    }
+
+    /**
+       Compare two numbers
+
+       @param v Number to compare to
+
+       @return -1, 0 or 1 if this number is less than, equal to or
+       greater than v
+     */
+    int compare(const decimal_fixedpoint& v) const
+    {
+        if ( negative != v.negative ) {
+            // Zero has no sign
+            if ( isZero() && v.isZero() ) return 0;
+            return negative ? -1 : 1;
+        }
+        return negative ? -compare_magnitude(v) : compare_magnitude(v);
+    }
+
 public:
     /**
        Default constructor.
@@ -682,7 +717,7 @@ public:
         }
 
         // Signs don't match, so we need to sort
-        if ( operator>=(v) ) {
+        if ( compare_magnitude(v) >= 0 ) {
             // Calculate the result for each digit.  Need to negate the
             // second operand and pass a 1 in as carry-in (carry-over).
             uint64_t carry_over = 1;
@@ -827,40 +862,21 @@ public:
 
        @param v Number to check equality against
      */
-    bool operator==(const decimal_fixedpoint& v) const
-    {
-        for ( int i = whole_words + fraction_words - 1; i >= 0; --i ) {
-            if ( data[i] != v.data[i] ) return false;
-        }
-        return true;
-    }
+    bool operator==(const decimal_fixedpoint& v) const { return compare(v) == 0; }
 
     /**
        Checks to see if two numbers are not equal
 
        @param v Number to check equality against
      */
-    bool operator!=(const decimal_fixedpoint& v) const
-    {
-        for ( int i = whole_words + fraction_words - 1; i >= 0; --i ) {
-            if ( data[i] != v.data[i] ) return true;
-        }
-        return false;
-    }
+    bool operator!=(const decimal_fixedpoint& v) const { return compare(v) != 0; }
 
     /**
        Checks to see if this number is greater than another number
 
        @param v Number to compare to
      */
-    bool operator>(const decimal_fixedpoint& v) const
-    {
-        for ( int i = whole_words + fraction_words - 1; i >= 0; --i ) {
-            if ( data[i] > v.data[i] ) return true;
-            if ( data[i] < v.data[i] ) return false;
-        }
-        return false;
-    }
+    bool operator>(const decimal_fixedpoint& v) const { return compare(v) > 0; }
 
     /**
        Checks to see if this number is greater than or equal to
@@ -868,28 +884,14 @@ public:
 
        @param v Number to compare to
      */
-    bool operator>=(const decimal_fixedpoint& v) const
-    {
-        for ( int i = whole_words + fraction_words - 1; i >= 0; --i ) {
-            if ( data[i] > v.data[i] ) return true;
-            if ( data[i] < v.data[i] ) return false;
-        }
-        return true;
-    }
+    bool operator>=(const decimal_fixedpoint& v) const { return compare(v) >= 0; }
 
     /**
        Checks to see if this number is less than another number
 
        @param v Number to compare to
      */
-    bool operator<(const decimal_fixedpoint& v) const
-    {
-        for ( int i = whole_words + fraction_words - 1; i >= 0; --i ) {
-            if ( data[i] < v.data[i] ) return true;
-            if ( data[i] > v.data[i] ) return false;
-        }
-        return false;
-    }
+    bool operator<(const decimal_fixedpoint& v) const { return compare(v) < 0; }
 
     /**
        Checks to see if this number is less than or equal to another
@@ -897,14 +899,7 @@ public:
 
        @param v Number to compare to
      */
-    bool operator<=(const decimal_fixedpoint& v) const
-    {
-        for ( int i = whole_words + fraction_words - 1; i >= 0; --i ) {
-            if ( data[i] < v.data[i] ) return true;
-            if ( data[i] > v.data[i] ) return false;
-        }
-        return true;
-    }
+    bool operator<=(const decimal_fixedpoint& v) const { return compare(v) <= 0; }
 };
 
 template <int whole_words, int fraction_words>
-- 
2.43.0


From 51bef05070a31cae9b6d002fcf29295968dce2a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:55:35 +0000
Subject: [PATCH 05/28] fix: decimal_fixedpoint keeps the sign when converting
 to and from double

---
 src/sst/core/decimal_fixedpoint.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/sst/core/decimal_fixedpoint.h b/src/sst/core/decimal_fixedpoint.h
index 06424cb..5b572f1 100644
--- a/src/sst/core/decimal_fixedpoint.h
+++ b/src/sst/core/decimal_fixedpoint.h
@@ -175,7 +175,8 @@ private:
      */
     void from_double(double init)
     {
-        negative = false;
+        negative = init < 0;
+        if ( negative ) init = -init;
 
         for ( int i = 0; i < whole_words + fraction_words; ++i ) {
             data[i] = 0;
@@ -380,7 +381,7 @@ public:
             factor *= storage_radix;
         }
 
-        return ret;
+        return negative ? -ret : ret;
     }
 
     /**
-- 
2.43.0


From c96b9a6d8cadb65e45bd7df08a026a651ca80f7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:55:35 +0000
Subject: [PATCH 06/28] fix: decimal_fixedpoint does not write out of bounds
 for numbers outside its range

---
 src/sst/core/decimal_fixedpoint.h | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/sst/core/decimal_fixedpoint.h b/src/sst/core/decimal_fixedpoint.h
index 5b572f1..cdf81af 100644
--- a/src/sst/core/decimal_fixedpoint.h
+++ b/src/sst/core/decimal_fixedpoint.h
@@ -22,6 +22,7 @@
 #include <limits>
 #include <ostream>
 #include <sstream>
+#include <stdexcept>
 #include <string>
 #include <type_traits>
 
@@ -124,7 +125,7 @@ private:
         // Convert digits to numbers
 
         // Compute the first mult
-        int      start_pos_word = start_of_digits % digits_per_word;
+        int      start_pos_word = start_of_digits < 0 ? 0 : start_of_digits % digits_per_word;
         uint32_t mult           = 1;
         for ( int i = 0; i < start_pos_word; i++ ) {
             mult *= 10;
@@ -134,7 +135,18 @@ private:
             int digit = start_of_digits + (init.length() - 1 - i);
             int word  = (digit / digits_per_word);
 
-            data[word] += (SST::Core::from_string<uint32_t>(init.substr(i, 1)) * mult);
+            uint32_t value = SST::Core::from_string<uint32_t>(init.substr(i, 1));
+
+            // Digits that are too small to be represented are dropped
+            if ( digit < 0 ) continue;
+
+            // Digits that are too big to be represented can only be zero
+            if ( word >= whole_words + fraction_words ) {
+                if ( value != 0 ) throw std::overflow_error("decimal_fixedpoint: number is too large: " + init_str);
+                continue;
+            }
+
+            data[word] += (value * mult);
             mult *= 10;
             if ( mult == storage_radix ) mult = 1;
         }
-- 
2.43.0


From 2e8171a377c823870e61e36e2c0289dca892cbef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:55:35 +0000
Subject: [PATCH 07/28] fix: UnitAlgebra values with different units are not
 equal

---
 src/sst/core/unitAlgebra.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sst/core/unitAlgebra.cc b/src/sst/core/unitAlgebra.cc
index eb73656..b96b4a0 100644
--- a/src/sst/core/unitAlgebra.cc
+++ b/src/sst/core/unitAlgebra.cc
@@ -482,7 +482,7 @@ UnitAlgebra::operator==(const UnitAlgebra& v) const
 bool
 UnitAlgebra::operator!=(const UnitAlgebra& v) const
 {
-    if ( unit != v.unit ) return false;
+    if ( unit != v.unit ) return true;
     return value != v.value;
 }
 
-- 
2.43.0


From 4dd936a24d2b1b2f10263761800cb91e3b48db28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:05:56 +0000
Subject: [PATCH 08/28] fix: an SI prefix in the denominator of a UnitAlgebra
 divides the value

---
 src/sst/core/unitAlgebra.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/sst/core/unitAlgebra.cc b/src/sst/core/unitAlgebra.cc
index b96b4a0..c5eafef 100644
--- a/src/sst/core/unitAlgebra.cc
+++ b/src/sst/core/unitAlgebra.cc
@@ -128,7 +128,10 @@ Units::addUnit(const std::string& units, sst_big_num& multiplier, bool invert)
 
     if ( si_length > 0 ) {
         std::string si_unit = units.substr(0, si_length);
-        multiplier *= si_unit_map()[si_unit];
+        if ( !invert )
+            multiplier *= si_unit_map()[si_unit];
+        else
+            multiplier /= si_unit_map()[si_unit];
     }
 
     // Check to see if the unit is valid and get its ID
-- 
2.43.0


From 2245277b4cf0073172214f9b987446e4261487e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:05:56 +0000
Subject: [PATCH 09/28] fix: UnitAlgebra does not read before the start of
 strings with only whitespace

---
 src/sst/core/unitAlgebra.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/sst/core/unitAlgebra.cc b/src/sst/core/unitAlgebra.cc
index c5eafef..f910198 100644
--- a/src/sst/core/unitAlgebra.cc
+++ b/src/sst/core/unitAlgebra.cc
@@ -306,6 +306,9 @@ UnitAlgebra::trim(const std::string& str)
     while ( isspace(str[front_index]) )
         front_index++;
 
+    // Nothing left if it was all whitespace
+    if ( front_index == static_cast<int>(str.length()) ) return "";
+
     // Find whitespace in back
     int back_index = str.length() - 1;
     while ( isspace(str[back_index]) )
-- 
2.43.0


From fe1bef9c86725185966e163cac98b22f821a4b30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:57:51 +0000
Subject: [PATCH 10/28] fix: print negative UnitAlgebra values with the best SI
 unit by magnitude

toStringBestSI relied on decimal_fixedpoint comparisons ignoring the sign.
---
 src/sst/core/unitAlgebra.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/sst/core/unitAlgebra.cc b/src/sst/core/unitAlgebra.cc
index f910198..eb0a68f 100644
--- a/src/sst/core/unitAlgebra.cc
+++ b/src/sst/core/unitAlgebra.cc
@@ -388,7 +388,10 @@ UnitAlgebra::toStringBestSI(int32_t precision) const
         // the most natural SI unit
         if ( it.first.length() == 2 ) continue; // Don't do power of 2 units
         temp = value / it.second;
-        if ( temp >= 1 && temp < 1000 ) {
+        // Pick the unit by magnitude, so that negative values get one as well
+        sst_big_num magnitude = temp;
+        if ( magnitude < 0 ) magnitude.negate();
+        if ( magnitude >= 1 && magnitude < 1000 ) {
             found = true;
             si    = it.first;
             break;
-- 
2.43.0


From 2d53c6f10e5183d712e2e78f16ddbc61aa5290ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:12:58 +0000
Subject: [PATCH 11/28] fix: report the maximum of negative floating point
 accumulator data

numeric_limits::min() of a floating point type is its smallest positive value.
---
 src/sst/core/statapi/stataccumulator.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/sst/core/statapi/stataccumulator.h b/src/sst/core/statapi/stataccumulator.h
index 1293a68..087e17e 100644
--- a/src/sst/core/statapi/stataccumulator.h
+++ b/src/sst/core/statapi/stataccumulator.h
@@ -59,7 +59,7 @@ public:
         m_sum    = static_cast<NumberBase>(0);
         m_sum_sq = static_cast<NumberBase>(0);
         m_min    = std::numeric_limits<NumberBase>::max();
-        m_max    = std::numeric_limits<NumberBase>::min();
+        m_max    = std::numeric_limits<NumberBase>::lowest();
     }
 
     ~AccumulatorStatistic() {}
@@ -164,7 +164,7 @@ public:
         m_sum    = 0;
         m_sum_sq = 0;
         m_min    = std::numeric_limits<NumberBase>::max();
-        m_max    = std::numeric_limits<NumberBase>::min();
+        m_max    = std::numeric_limits<NumberBase>::lowest();
         this->setCollectionCount(0);
     }
 
-- 
2.43.0


From 35be90ae152d4b350d4a2db71a87ef3764ae59b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:12:58 +0000
Subject: [PATCH 12/28] fix: count every item binned by addDataNTimes in a
 histogram statistic

---
 src/sst/core/statapi/stathistogram.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sst/core/statapi/stathistogram.h b/src/sst/core/statapi/stathistogram.h
index c893498..bdb9cdf 100644
--- a/src/sst/core/statapi/stathistogram.h
+++ b/src/sst/core/statapi/stathistogram.h
@@ -134,7 +134,7 @@ protected:
         m_totalSummedSqr += N * (value * value);
 
         // Increment the Binned count (note this <= to the Statistics added Item Count)
-        m_itemsBinnedCount++;
+        m_itemsBinnedCount += N;
 
         // Figure out what the starting bin is and find it in the map
         // To support signed and unsigned values along with floating point types,
-- 
2.43.0


From 5ad6735b36c4248e45732ad9387c3882f71807ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:12:58 +0000
Subject: [PATCH 13/28] fix: histogram bins start at the minimum value

With a minimum that is not a multiple of the bin width, items were filed
under bin starts that output never looked up, so every bin read zero.
---
 src/sst/core/statapi/stathistogram.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/sst/core/statapi/stathistogram.h b/src/sst/core/statapi/stathistogram.h
index bdb9cdf..ebdd4d3 100644
--- a/src/sst/core/statapi/stathistogram.h
+++ b/src/sst/core/statapi/stathistogram.h
@@ -140,10 +140,11 @@ protected:
         // To support signed and unsigned values along with floating point types,
         // the calculation to find the bin_start value must be done in floating point
         // then converted to BinDataType
-        double      calc1     = (double)value / (double)m_binWidth;
+        // Bins start at the minimum value
+        double      calc1     = ((double)value - (double)m_minValue) / (double)m_binWidth;
         double      calc2     = floor(calc1); // Find the floor of the value
         double      calc3     = m_binWidth * calc2;
-        BinDataType bin_start = (BinDataType)calc3;
+        BinDataType bin_start = (BinDataType)(calc3 + (double)m_minValue);
         //      printf("DEBUG: value = %d, junk1 = %f, calc2 = %f, calc3 = %f : bin_start = %d, item count = %ld, \n",
         //      value, calc1, calc2, calc3, bin_start, getStatCollectionCount());
 
-- 
2.43.0


From ad0694f329ef0e678675d901d7f6cd00a4f9e3e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:27:45 +0000
Subject: [PATCH 14/28] fix: threads entering a Barrier while it is disabled
 are released

---
 src/sst/core/threadsafe.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sst/core/threadsafe.h b/src/sst/core/threadsafe.h
index db32fcb..dfdb5d8 100644
--- a/src/sst/core/threadsafe.h
+++ b/src/sst/core/threadsafe.h
@@ -116,7 +116,7 @@ public:
                         ts.tv_nsec = 1000;
                         nanosleep(&ts, nullptr);
                     }
-                } while ( gen == generation.load(std::memory_order_acquire) );
+                } while ( enabled && gen == generation.load(std::memory_order_acquire) );
             }
             elapsed = SST::Core::Profile::getElapsed(startTime);
         }
-- 
2.43.0


From 58c6c199027c3ad759523b33f5ded9fb7a8da172 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:27:45 +0000
Subject: [PATCH 15/28] fix: BoundedQueue of one element refuses an insertion
 while it is full

---
 src/sst/core/threadsafe.h | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/sst/core/threadsafe.h b/src/sst/core/threadsafe.h
index dfdb5d8..7ca029b 100644
--- a/src/sst/core/threadsafe.h
+++ b/src/sst/core/threadsafe.h
@@ -170,6 +170,7 @@ class BoundedQueue
 
     struct cell_t
     {
+        // 2 * pos: free for the insertion at pos, 2 * pos + 1: filled by the insertion at pos
         std::atomic<size_t> sequence;
         T                   data;
     };
@@ -198,7 +199,7 @@ public:
         dsize = maxSize;
         data  = new cell_t[dsize];
         for ( size_t i = 0; i < maxSize; i++ )
-            data[i].sequence.store(i);
+            data[i].sequence.store(2 * i);
         rPtr.store(0);
         wPtr.store(0);
         // fprintf(stderr, "%p  %p:  %ld\n", &rPtr, &wPtr, ((intptr_t)&wPtr - (intptr_t)&rPtr));
@@ -221,7 +222,7 @@ public:
         for ( ;; ) {
             cell          = &data[pos % dsize];
             size_t   seq  = cell->sequence.load(std::memory_order_acquire);
-            intptr_t diff = (intptr_t)seq - (intptr_t)pos;
+            intptr_t diff = (intptr_t)seq - (intptr_t)(2 * pos);
             if ( 0 == diff ) {
                 if ( wPtr.compare_exchange_weak(pos, pos + 1, std::memory_order_relaxed) ) break;
             }
@@ -234,7 +235,7 @@ public:
             }
         }
         cell->data = arg;
-        cell->sequence.store(pos + 1, std::memory_order_release);
+        cell->sequence.store(2 * pos + 1, std::memory_order_release);
         return true;
     }
 
@@ -245,7 +246,7 @@ public:
         for ( ;; ) {
             cell          = &data[pos % dsize];
             size_t   seq  = cell->sequence.load(std::memory_order_acquire);
-            intptr_t diff = (intptr_t)seq - (intptr_t)(pos + 1);
+            intptr_t diff = (intptr_t)seq - (intptr_t)(2 * pos + 1);
             if ( 0 == diff ) {
                 if ( rPtr.compare_exchange_weak(pos, pos + 1, std::memory_order_relaxed) ) break;
             }
@@ -257,7 +258,7 @@ public:
             }
         }
         res = cell->data;
-        cell->sequence.store(pos + dsize, std::memory_order_release);
+        cell->sequence.store(2 * (pos + dsize), std::memory_order_release);
         return true;
     }
 
-- 
2.43.0


From a353cde53f2c63310e32672d1c7881c0a359d0e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:40:10 +0000
Subject: [PATCH 16/28] fix: children attaching to a tunnel at the same time
 are all counted

---
 src/sst/core/interprocess/tunneldef.h | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/sst/core/interprocess/tunneldef.h b/src/sst/core/interprocess/tunneldef.h
index f242221..359d801 100644
--- a/src/sst/core/interprocess/tunneldef.h
+++ b/src/sst/core/interprocess/tunneldef.h
@@ -139,9 +139,8 @@ public:
             }
             numBuffs = isd->numBuffers;
 
-            auto t                = isd->expectedChildren - 1;
-            isd->expectedChildren = t;
-            return t;
+            // Children may attach at the same time
+            return __sync_sub_and_fetch(&isd->expectedChildren, 1);
         }
     }
 
-- 
2.43.0


From eb20b0bf9bc12eafd60bd38c52161d5a7c70fe60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:53:43 +0000
Subject: [PATCH 17/28] fix: SharedMap::upper_bound returns the first key after
 the given one

---
 src/sst/core/shared/sharedMap.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sst/core/shared/sharedMap.h b/src/sst/core/shared/sharedMap.h
index c313faa..8a0d96c 100644
--- a/src/sst/core/shared/sharedMap.h
+++ b/src/sst/core/shared/sharedMap.h
@@ -152,7 +152,7 @@ public:
 
        @param key key to compare to
     */
-    inline const_iterator upper_bound(const keyT& key) const { return data->map.lower_bound(key); }
+    inline const_iterator upper_bound(const keyT& key) const { return data->map.upper_bound(key); }
 
     /**
        Indicate that the calling element has written all the data it
-- 
2.43.0


From 74d65978ca6a6f91d47a0f9476067b51c3495d82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:53:43 +0000
Subject: [PATCH 18/28] fix: a SharedMap that is not verified takes the last
 value written on every rank

---
 src/sst/core/shared/sharedMap.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/sst/core/shared/sharedMap.h b/src/sst/core/shared/sharedMap.h
index 8a0d96c..b66ae09 100644
--- a/src/sst/core/shared/sharedMap.h
+++ b/src/sst/core/shared/sharedMap.h
@@ -322,7 +322,10 @@ private:
             auto success = map.insert(std::make_pair(key, value));
             if ( !success.second ) {
                 // Wrote to a key that already existed
-                if ( verify != NO_VERIFY && value != success.first->second ) {
+                if ( verify == NO_VERIFY ) {
+                    success.first->second = value;
+                }
+                else if ( value != success.first->second ) {
                     Private::getSimulationOutput().fatal(
                         CALL_INFO, 1, "ERROR: wrote two different values to same key in SharedMap %s\n", name.c_str());
                 }
-- 
2.43.0


From 735b7ee075d2fddce0d2bd2caa5782f086d2d436 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:53:43 +0000
Subject: [PATCH 19/28] fix: shared objects are locked and fully published
 after a restart

---
 src/sst/core/shared/sharedObject.h | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/sst/core/shared/sharedObject.h b/src/sst/core/shared/sharedObject.h
index 6317284..127695c 100644
--- a/src/sst/core/shared/sharedObject.h
+++ b/src/sst/core/shared/sharedObject.h
@@ -207,7 +207,14 @@ protected:
         locked(false)
     {}
 
-    SharedObjectData() {}
+    // For serialization: writing is over once the data can be
+    // checkpointed
+    SharedObjectData() :
+        share_count(0),
+        publish_count(0),
+        fully_published(true),
+        locked(true)
+    {}
 
     /**
        Destructor for SharedObjectData
-- 
2.43.0


From c7d44b259c484ed78657ab7cb639a9351cb8033e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:05:06 +0000
Subject: [PATCH 20/28] fix: report a link dangling from a subcomponent instead
 of throwing out_of_range

---
 src/sst/core/model/configGraph.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sst/core/model/configGraph.cc b/src/sst/core/model/configGraph.cc
index c4b68dc..63e8209 100644
--- a/src/sst/core/model/configGraph.cc
+++ b/src/sst/core/model/configGraph.cc
@@ -263,7 +263,7 @@ ConfigGraph::checkForStructuralErrors()
         // If we do this check, we know component_[0] is set
         else if ( clink->component_[1] == UNSET_COMPONENT_ID && !clink->nonlocal_ ) {
             output.output("WARNING:  Found dangling link: %s.  It is connected on one side to component %s.\n",
-                clink->name_.c_str(), comps_[clink->component_[0]]->name.c_str());
+                clink->name_.c_str(), findComponent(clink->component_[0])->name.c_str());
             found_error = true;
         }
     }
-- 
2.43.0


From 853e99ce818d7b9f28422fe68f99fafc11d30d9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:05:06 +0000
Subject: [PATCH 21/28] fix: subcomponents know the graph their component is
 moved to when a graph is split

---
 src/sst/core/model/configGraph.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sst/core/model/configGraph.cc b/src/sst/core/model/configGraph.cc
index 63e8209..fc75c1b 100644
--- a/src/sst/core/model/configGraph.cc
+++ b/src/sst/core/model/configGraph.cc
@@ -606,7 +606,7 @@ ConfigGraph::GraphFilter::operator()(ConfigComponent* comp)
     }
     else if ( nset_.count(comp->rank.rank) ) {
         // Move to new graph
-        comp->graph = ngraph_;
+        comp->setConfigGraphPointer(ngraph_);
         ngraph_->comps_.insert(comp);
         return nullptr;
     }
-- 
2.43.0


From 13b9d85b9273e9054b0cbbc4bc5a6db02b06aaac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:05:06 +0000
Subject: [PATCH 22/28] fix: links of subcomponents connect the group of their
 component in the collapsed partition graph

---
 src/sst/core/model/configGraph.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/sst/core/model/configGraph.cc b/src/sst/core/model/configGraph.cc
index fc75c1b..1a97e13 100644
--- a/src/sst/core/model/configGraph.cc
+++ b/src/sst/core/model/configGraph.cc
@@ -840,8 +840,8 @@ ConfigGraph::getCollapsedPartitionGraph()
         PartitionComponent* pcomp = *i;
         for ( LinkIdMap_t::iterator j = pcomp->links.begin(); j != pcomp->links.end(); ++j ) {
             PartitionLink& plink = plinks[*j];
-            if ( pcomp->group.contains(plink.component_[0]) ) plink.component_[0] = pcomp->id;
-            if ( pcomp->group.contains(plink.component_[1]) ) plink.component_[1] = pcomp->id;
+            if ( pcomp->group.contains(COMPONENT_ID_MASK(plink.component_[0])) ) plink.component_[0] = pcomp->id;
+            if ( pcomp->group.contains(COMPONENT_ID_MASK(plink.component_[1])) ) plink.component_[1] = pcomp->id;
         }
     }
 
-- 
2.43.0


From 7875242a55b83c9149026675754be4bc6a0c4c66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:18:15 +0000
Subject: [PATCH 23/28] fix: a scoped parameter keeps the precedence of local
 over shared values

---
 src/sst/core/params.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sst/core/params.cc b/src/sst/core/params.cc
index 1a617ff..80832aa 100644
--- a/src/sst/core/params.cc
+++ b/src/sst/core/params.cc
@@ -219,7 +219,7 @@ Params::get_scoped_params(const std::string& scope) const
         for ( auto value : *map ) {
             std::string key = keyMapReverse[value.first].substr(0, prefix.length());
             if ( key == prefix ) {
-                ret.insert(keyMapReverse[value.first].substr(prefix.length()), value.second);
+                ret.insert(keyMapReverse[value.first].substr(prefix.length()), value.second, false);
             }
         }
     }
-- 
2.43.0


From e7261c735220b930e82953bc3bc6c00ba2b20276 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:18:15 +0000
Subject: [PATCH 24/28] fix: the name of a shared set is not one of a Params
 object's parameters

---
 src/sst/core/params.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/sst/core/params.cc b/src/sst/core/params.cc
index 80832aa..754b822 100644
--- a/src/sst/core/params.cc
+++ b/src/sst/core/params.cc
@@ -201,7 +201,8 @@ Params::getKeys() const
     std::set<std::string> ret;
     for ( auto map : data ) {
         for ( auto value : *map ) {
-            ret.insert(keyMapReverse[value.first]);
+            // ID 0 holds the name of a shared set, it is not a parameter
+            if ( value.first != 0 ) ret.insert(keyMapReverse[value.first]);
         }
     }
     return ret;
@@ -335,6 +336,8 @@ Params::serialize_order(SST::Core::Serialization::serializer& ser)
             // exists will be ignored.
             for ( auto& map : data ) {
                 for ( auto& kvp : *map ) {
+                    // ID 0 holds the name of a shared set, it is not a parameter
+                    if ( kvp.first == 0 ) continue;
                     tmp_map.insert(std::make_pair(getParamName(kvp.first), kvp.second));
                 }
             }
-- 
2.43.0


From 4982552cfa968388e4c70965a681f2fc3762d38a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:27:48 +0000
Subject: [PATCH 25/28] fix: the Exit object was in the TimeVortex twice or
 deleted twice

---
 src/sst/core/exit.cc      | 11 ++++++++++-
 src/sst/core/exit.h       |  1 +
 src/sst/core/simulation.h |  1 +
 3 files changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/sst/core/exit.cc b/src/sst/core/exit.cc
index c2e994e..43775f3 100644
--- a/src/sst/core/exit.cc
+++ b/src/sst/core/exit.cc
@@ -40,6 +40,10 @@ Exit::Exit(int num_threads, bool single_rank) :
 Exit::~Exit()
 {
     delete[] thread_counts_;
+
+    // If still in the TimeVortex at the end of the run, the object is
+    // deleted along with it and must not be deleted again
+    if ( Simulation::m_exit == this ) Simulation::m_exit = nullptr;
 }
 
 void
@@ -64,7 +68,11 @@ Exit::refDec(uint32_t thread)
     if ( single_rank_ && num_threads_ == 1 && ref_count_ == 0 ) {
         end_time_       = Simulation::getSimulation()->getCurrentSimCycle();
         Simulation* sim = Simulation::getSimulation();
-        sim->insertActivity(sim->getCurrentSimCycle() + 1, this);
+        // The object can only be in the TimeVortex once
+        if ( !scheduled_ ) {
+            scheduled_ = true;
+            sim->insertActivity(sim->getCurrentSimCycle() + 1, this);
+        }
     }
     else if ( thread_counts_[thread] == 0 ) {
         SimTime_t end_time_new = Simulation::getSimulation()->getCurrentSimCycle();
@@ -88,6 +96,7 @@ void
 Exit::execute()
 {
     // Only gets put into queue once, no need to reschedule
+    scheduled_ = false;
     check();
 }
 
diff --git a/src/sst/core/exit.h b/src/sst/core/exit.h
index 6449be8..c5bc7b7 100644
--- a/src/sst/core/exit.h
+++ b/src/sst/core/exit.h
@@ -129,6 +129,7 @@ private:
     unsigned int  global_count_  = 0;
     SimTime_t     end_time_      = 0;
     bool          single_rank_   = true;
+    bool          scheduled_     = false; // is in the TimeVortex
 
     Core::ThreadSafe::Spinlock slock_;
 };
diff --git a/src/sst/core/simulation.h b/src/sst/core/simulation.h
index 53eaa92..f5bcf29 100644
--- a/src/sst/core/simulation.h
+++ b/src/sst/core/simulation.h
@@ -390,6 +390,7 @@ public:
 
     friend class Link;
     friend class Action;
+    friend class Exit;
     friend class Output;
     // To enable main to set up globals
     friend int ::main(int argc, char** argv);
-- 
2.43.0


From e051d8ebc497f570843d3ab3f035b923357490d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:28:40 +0000
Subject: [PATCH 26/28] fix: a primary component that never asked not to end
 the simulation could release another component's hold

---
 src/sst/core/baseComponent.cc | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/sst/core/baseComponent.cc b/src/sst/core/baseComponent.cc
index 632f7a3..e5a14a8 100644
--- a/src/sst/core/baseComponent.cc
+++ b/src/sst/core/baseComponent.cc
@@ -913,9 +913,12 @@ BaseComponent::primaryComponentOKToEndSim()
             "calling registerAsPrimaryComponent(). Call had no effect.\n",
             getName().c_str());
     }
-    else if ( isStateOKToEndSim() ) {
+    else if ( !isStateDoNotEndSim() ) {
+        // Only a component which is counted as DoNotEndSim may change the count
         sim_->getSimulationOutput().verbose(CALL_INFO, 1, 1,
-            "WARNING: Component (%s) had multiple calls to primaryComponentOKToEndSim()\n", getName().c_str());
+            "WARNING: Component (%s) had multiple calls to primaryComponentOKToEndSim(), or called it without first "
+            "calling primaryComponentDoNotEndSim(). Call had no effect.\n",
+            getName().c_str());
     }
     else {
         setStateOKToEndSim();
-- 
2.43.0


From 40fd3738a60f3fc7be5423f879d5cd291f3c300f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:51:07 +0000
Subject: [PATCH 27/28] fix: Output used closed or foreign files after copies,
 changes of location or destruction of objects writing to files

---
 src/sst/core/output.cc | 58 +++++++++++++++++++++++++++++++++++++++---
 src/sst/core/output.h  |  4 +--
 2 files changed, 56 insertions(+), 6 deletions(-)

diff --git a/src/sst/core/output.cc b/src/sst/core/output.cc
index 3f889fd..b45bfe9 100644
--- a/src/sst/core/output.cc
+++ b/src/sst/core/output.cc
@@ -26,6 +26,8 @@
 #include <cstddef>
 #include <cstdlib>
 #include <cstring>
+#include <mutex>
+#include <set>
 #include <stdexcept>
 #include <string>
 
@@ -65,8 +67,48 @@ Output::Output()
     m_outputPrefix = "";
     m_verboseLevel = 0;
     m_verboseMask  = 0;
-    ;
-    m_targetLoc = NONE;
+
+    m_sstLocalFileHandle       = nullptr;
+    m_sstLocalFileAccessCount  = 0;
+    m_targetFileHandleRef      = nullptr;
+    m_targetFileNameRef        = nullptr;
+    m_targetFileAccessCountRef = nullptr;
+
+    setTargetOutput(NONE);
+}
+
+Output::Output(const Output& other) :
+    Output()
+{
+    *this = other;
+}
+
+Output&
+Output::operator=(const Output& other)
+{
+    if ( this == &other ) return *this;
+
+    // The files are not shared with the other object, except for the global one
+    closeSSTTargetFile();
+
+    m_objInitialized           = other.m_objInitialized;
+    m_outputPrefix             = other.m_outputPrefix;
+    m_verboseLevel             = other.m_verboseLevel;
+    m_verboseMask              = other.m_verboseMask;
+    m_sstLocalFileName         = other.m_sstLocalFileName;
+    m_sstLocalFileHandle       = nullptr;
+    m_sstLocalFileAccessCount  = 0;
+    m_targetFileHandleRef      = nullptr;
+    m_targetFileNameRef        = nullptr;
+    m_targetFileAccessCountRef = nullptr;
+
+    if ( m_objInitialized ) {
+        setTargetOutput(other.m_targetLoc);
+    }
+    else {
+        m_targetLoc = other.m_targetLoc;
+    }
+    return *this;
 }
 
 void
@@ -301,8 +343,15 @@ Output::openSSTTargetFile() const
                     tempFileName += tempBuf;
                 }
 
-                // Now try to open the file
-                handle = fopen(tempFileName.c_str(), "w");
+                // Now try to open the file.  A file that was already written to by this process is continued
+                bool first_open;
+                {
+                    static std::mutex            opened_mutex;
+                    static std::set<std::string> opened_files;
+                    std::scoped_lock             lock(opened_mutex);
+                    first_open = opened_files.insert(tempFileName).second;
+                }
+                handle = fopen(tempFileName.c_str(), first_open ? "w" : "a");
                 if ( nullptr != handle ) {
                     *m_targetFileHandleRef = handle;
                 }
@@ -329,6 +378,7 @@ Output::closeSSTTargetFile()
         // If the access count is zero, and the file has been opened, then close it
         if ( (0 == *m_targetFileAccessCountRef) && (nullptr != *m_targetFileHandleRef) && (FILE == m_targetLoc) ) {
             fclose(*m_targetFileHandleRef);
+            *m_targetFileHandleRef = nullptr;
         }
     }
 }
diff --git a/src/sst/core/output.h b/src/sst/core/output.h
index 959421d..4ff1c24 100644
--- a/src/sst/core/output.h
+++ b/src/sst/core/output.h
@@ -125,8 +125,8 @@ public:
 
     ~Output();
 
-    Output(const Output&)            = default;
-    Output& operator=(const Output&) = default;
+    Output(const Output& other);
+    Output& operator=(const Output& other);
 
     /** Initialize the object after construction
         @param prefix Prefix to be prepended to all strings emitted by calls to
-- 
2.43.0


From 891cfdfcc84f74f4c5c4a7c37c972b15f6f22696 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:51:07 +0000
Subject: [PATCH 28/28] fix: a % in an Output prefix, file or function name was
 taken as a conversion

---
 src/sst/core/output.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/sst/core/output.cc b/src/sst/core/output.cc
index b45bfe9..499cf81 100644
--- a/src/sst/core/output.cc
+++ b/src/sst/core/output.cc
@@ -482,6 +482,11 @@ Output::buildPrefixString(uint32_t line, const std::string& file, const std::str
     // copy the remainder of the string from the start index to the end.
     rtnstring += m_outputPrefix.substr(startindex);
 
+    // The result becomes part of a format string, where a literal % is written as %%
+    for ( size_t pos = 0; (pos = rtnstring.find('%', pos)) != std::string::npos; pos += 2 ) {
+        rtnstring.insert(pos, "%");
+    }
+
     return rtnstring;
 }
 
-- 
2.43.0

