From bf913681d237c51112da6f08dd497d7b775ec039 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:36 +0000
Subject: [PATCH 01/52] fix: GnssObservable equality compares parts with their
 multiplicity

{x,x} == {x,y} was true although {x,y} == {x,x} was false
---
 src/gnssobsrv.cpp | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/gnssobsrv.cpp b/src/gnssobsrv.cpp
index 2dc58b3..1da6d8f 100644
--- a/src/gnssobsrv.cpp
+++ b/src/gnssobsrv.cpp
@@ -65,11 +65,10 @@ bool ngpt::GnssObservable::operator==(const ngpt::GnssObservable &o) const
     noexcept {
   if (o.__vec.size() != __vec.size())
     return false;
-  for (const auto &i : __vec)
-    if (auto it = std::find_if(
-            o.__vec.begin(), o.__vec.end(),
-            [&ic = std::as_const(i)](const __ObsPart &p) { return p == ic; });
-        it == o.__vec.end())
+  for (const auto &i : __vec) {
+    const auto n = std::count(o.__vec.begin(), o.__vec.end(), i);
+    if (!n || n != std::count(__vec.begin(), __vec.end(), i))
       return false;
+  }
   return true;
 }
-- 
2.43.0


From 40d1ea69be718c332d4a89508dfe95cee53115f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:36 +0000
Subject: [PATCH 02/52] fix: SatelliteAntenna::is_same returned the negated
 comparison

---
 src/antenna.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/antenna.cpp b/src/antenna.cpp
index 8b11f9e..9a877a2 100644
--- a/src/antenna.cpp
+++ b/src/antenna.cpp
@@ -189,7 +189,7 @@ SatelliteAntenna::SatelliteAntenna(const char *c) noexcept {
 /// @return       Returns true of the passed in c-string holds the same
 ///               antenna type as this instance; false otherwise
 bool SatelliteAntenna::is_same(const char *c) const noexcept {
-  return std::strncmp(__name, c, satellite_antenna_max_chars);
+  return !std::strncmp(__name, c, satellite_antenna_max_chars);
 }
 
 /// Set the model name to nothing, that is to 20 null terminating chars
-- 
2.43.0


From 2a1c214cb21060d80057b1c8a61c326ca8dd0b68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:56 +0000
Subject: [PATCH 03/52] fix: GLONASS integration must stop at the requested
 epoch, not at the next full step

---
 src/glonav.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/glonav.cpp b/src/glonav.cpp
index 44614b0..3db3e63 100644
--- a/src/glonav.cpp
+++ b/src/glonav.cpp
@@ -321,6 +321,9 @@ int NavDataFrame::glo_ecef(double t_sec, double *state) const noexcept {
   // Perform Runge-Kutta 4th
   // while (std::abs(ti-t_lim)>1e-9 && ++max_it<1500) {
   while (h > 0 ? ti < t_lim : ti > t_lim && ++max_it < 1500) {
+    // do not step past the requested epoch
+    if (std::abs(t_lim - ti) < std::abs(h))
+      h = t_lim - ti;
     // compute k1
     glo_state_deriv(yti, acc, k1);
     // compute k2
-- 
2.43.0


From d99ea88e21b04680320ae22d868a4dd5efc91c6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:07 +0000
Subject: [PATCH 04/52] fix: GLONASS time of ephemeris across the end of the
 week

A frame time of the last week days combined with a clock epoch on the
first week days (or the reverse) put the time of ephemeris almost a week
away instead of within the days around the clock epoch.
---
 src/navrnx.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/navrnx.hpp b/src/navrnx.hpp
index 2a748e5..59dfa19 100644
--- a/src/navrnx.hpp
+++ b/src/navrnx.hpp
@@ -527,6 +527,11 @@ private:
 #endif
     // days difference (if any)
     int offset = dw_toc - dw_toe;
+    // ToC and ToE may lie on different sides of the end of the week
+    if (offset > 3)
+      offset -= 7;
+    else if (offset < -3)
+      offset += 7;
     // seconds of day (for ToE)
     long sd_toe = sw_toe % 86400L;
 #ifdef DEBUG
-- 
2.43.0


From 76bfca65dee1b319b461c56df1dae36899792c3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:44 +0000
Subject: [PATCH 05/52] fix: malformed navigation records no longer terminate
 the program

NavDataFrame::set_from_rnx3 is noexcept but resolving the satellite system
and the time of clock may throw; report status 2 instead.
---
 src/navrnx.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/navrnx.cpp b/src/navrnx.cpp
index f8b6c8b..796d477 100644
--- a/src/navrnx.cpp
+++ b/src/navrnx.cpp
@@ -87,8 +87,12 @@ int NavDataFrame::set_from_rnx3(std::ifstream &inp) noexcept {
   if (!inp.getline(line, MAX_RECORD_CHARS)) {
     return 1;
   }
-  sys__ = ngpt::char_to_satsys(*line);
-  toc__ = ngpt::strptime_ymd_hms<ngpt::seconds>(line + 3);
+  try { // both may throw
+    sys__ = ngpt::char_to_satsys(*line);
+    toc__ = ngpt::strptime_ymd_hms<ngpt::seconds>(line + 3);
+  } catch (std::exception &) {
+    return 2;
+  }
   prn__ = std::strtol(line + 1, &str_end, 10);
   if (!prn__ || errno == ERANGE) {
     errno = 0;
-- 
2.43.0


From 969e622119d92a045f4b8c10013c8efc5151461d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:44 +0000
Subject: [PATCH 06/52] fix: reading a navigation record does not depend on a
 stale errno

A record was rejected (status 2 or 3) when some earlier, unrelated call had
left errno set.
---
 src/navrnx.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/navrnx.cpp b/src/navrnx.cpp
index 796d477..c74e5de 100644
--- a/src/navrnx.cpp
+++ b/src/navrnx.cpp
@@ -93,6 +93,7 @@ int NavDataFrame::set_from_rnx3(std::ifstream &inp) noexcept {
   } catch (std::exception &) {
     return 2;
   }
+  errno = 0; // whatever earlier calls left behind is not our concern
   prn__ = std::strtol(line + 1, &str_end, 10);
   if (!prn__ || errno == ERANGE) {
     errno = 0;
-- 
2.43.0


From 83f032ee7a4e304e6dca438a86fbb56b674bf2b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:44 +0000
Subject: [PATCH 07/52] fix: short lines of a navigation record are not
 completed from earlier ones

The line buffer kept the previous line (or was not initialised at all), so
that values missing from a truncated line were read from whatever had been in
the same columns before; such a record is now rejected.
---
 src/navrnx.cpp | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/navrnx.cpp b/src/navrnx.cpp
index c74e5de..089c089 100644
--- a/src/navrnx.cpp
+++ b/src/navrnx.cpp
@@ -63,6 +63,14 @@ int __lines_per_satsys_v3__(ngpt::SATELLITE_SYSTEM s,
   return lines_to_read;
 }
 
+/// @brief Read the next line of a data block. Characters following the end of
+///        the line are set to null, so that a short line is not filled up with
+///        what is left of a previous one.
+static bool __next_record_line__(std::ifstream &inp, char *line) {
+  std::memset(line, 0, MAX_RECORD_CHARS);
+  return !inp.getline(line, MAX_RECORD_CHARS).fail();
+}
+
 /// @details: Resolve a Nav. RINEX v3.x data block to a NavDataFrame. The
 ///           function expect that the first line to be read is:
 ///           "SV/ EPOCH / SV CLK". Depending on the satellite system (to be
@@ -84,7 +92,7 @@ int NavDataFrame::set_from_rnx3(std::ifstream &inp) noexcept {
 
   // Read the first line.
   // ------------------------------------------------------------
-  if (!inp.getline(line, MAX_RECORD_CHARS)) {
+  if (!__next_record_line__(inp, line)) {
     return 1;
   }
   try { // both may throw
@@ -115,7 +123,7 @@ int NavDataFrame::set_from_rnx3(std::ifstream &inp) noexcept {
   // read all but the last line (** all but galileo or beidou **)
   if (sys__ != SATELLITE_SYSTEM::galileo && sys__ != SATELLITE_SYSTEM::beidou) {
     for (ln = 0; ln < lines_in_block - 1; ln++) {
-      if (!inp.getline(line, MAX_RECORD_CHARS)) {
+      if (!__next_record_line__(inp, line)) {
         return 5;
       }
       // replace 'D' or 'd' with 'e'
@@ -128,7 +136,7 @@ int NavDataFrame::set_from_rnx3(std::ifstream &inp) noexcept {
     }
   } else { // galileo and beidou have an empty record in line #5
     for (ln = 0; ln < lines_in_block - 1; ln++) {
-      if (!inp.getline(line, MAX_RECORD_CHARS)) {
+      if (!__next_record_line__(inp, line)) {
         return 5;
       }
       // replace 'D' or 'd' with 'e'
@@ -149,7 +157,7 @@ int NavDataFrame::set_from_rnx3(std::ifstream &inp) noexcept {
   }
 
   // read last line
-  if (!inp.getline(line, MAX_RECORD_CHARS)) {
+  if (!__next_record_line__(inp, line)) {
     return 7;
   }
   // replace 'D' or 'd' with 'e'
-- 
2.43.0


From 7a928bffe9cdc8af36ca0ea92ad9b38ed632a848 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:01 +0000
Subject: [PATCH 08/52] fix: the orbit prediction flag of an SP3 record is the
 letter P

---
 src/sp3c.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sp3c.cpp b/src/sp3c.cpp
index c239596..3d59c44 100644
--- a/src/sp3c.cpp
+++ b/src/sp3c.cpp
@@ -372,7 +372,7 @@ int Sp3c::get_next_position(char *line, ngpt::SATELLITE_SYSTEM &s, int &prn,
     flag.set(Sp3Event::clock_prediction);
   if (line[78] == 'M')
     flag.set(Sp3Event::maneuver);
-  if (line[79] == 'E')
+  if (line[79] == 'P')
     flag.set(Sp3Event::orbit_prediction);
 
   return 0;
-- 
2.43.0


From 04b17f083a9fb79eca43766f60d3bd924f1fffc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:01 +0000
Subject: [PATCH 09/52] fix: SP3 record flags and values of a short line came
 from an earlier line

---
 src/sp3c.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/sp3c.cpp b/src/sp3c.cpp
index 3d59c44..e72426b 100644
--- a/src/sp3c.cpp
+++ b/src/sp3c.cpp
@@ -295,6 +295,8 @@ int Sp3c::get_next_epoch(ngpt::datetime<ngpt::microseconds> &t,
   do {
     c = __istream.peek();
     if (c != '*') {
+      // a short line must not be completed by the one before it
+      std::memset(line, 0, MAX_RECORD_CHARS);
       __istream.getline(line, MAX_RECORD_CHARS);
       if (*line == 'P') { /* position and clock line */
         if ((j = get_next_position(line, sys, prn, state, flag)))
-- 
2.43.0


From af4b6611c86ce700ac311f7bc2fdf05110a53e6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:01 +0000
Subject: [PATCH 10/52] fix: reading an SP3 epoch never ended when the file did
 without an EOF line

---
 src/sp3c.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/sp3c.cpp b/src/sp3c.cpp
index e72426b..f902477 100644
--- a/src/sp3c.cpp
+++ b/src/sp3c.cpp
@@ -297,7 +297,8 @@ int Sp3c::get_next_epoch(ngpt::datetime<ngpt::microseconds> &t,
     if (c != '*') {
       // a short line must not be completed by the one before it
       std::memset(line, 0, MAX_RECORD_CHARS);
-      __istream.getline(line, MAX_RECORD_CHARS);
+      if (!__istream.getline(line, MAX_RECORD_CHARS))
+        return 12; // neither a next epoch header nor an EOF line
       if (*line == 'P') { /* position and clock line */
         if ((j = get_next_position(line, sys, prn, state, flag)))
           return j + 20;
-- 
2.43.0


From f2125397e70d9cdec1e7ef0b9086062d029984a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:01 +0000
Subject: [PATCH 11/52] fix: an SP3 epoch with more records than the vector has
 elements was written behind its end

---
 src/sp3c.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/sp3c.cpp b/src/sp3c.cpp
index f902477..1eb5e0c 100644
--- a/src/sp3c.cpp
+++ b/src/sp3c.cpp
@@ -302,6 +302,8 @@ int Sp3c::get_next_epoch(ngpt::datetime<ngpt::microseconds> &t,
       if (*line == 'P') { /* position and clock line */
         if ((j = get_next_position(line, sys, prn, state, flag)))
           return j + 20;
+        if (it == vec.end())
+          return 13; // more records than the caller has room for
         *it = Sp3EpochSvRecord{sys, prn, state, flag};
         ++it;
       } else if (!std::strncmp(line, "EOF", 3)) { /* EOF */
-- 
2.43.0


From 7234998c1ea23007bf8b7456870a84d33d1785eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:01 +0000
Subject: [PATCH 12/52] fix: a stale errno made a valid SP3 epoch be rejected

---
 src/sp3c.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/sp3c.cpp b/src/sp3c.cpp
index 1eb5e0c..351adbf 100644
--- a/src/sp3c.cpp
+++ b/src/sp3c.cpp
@@ -249,6 +249,7 @@ int Sp3c::get_next_epoch(ngpt::datetime<ngpt::microseconds> &t,
 
   if (!__istream.good())
     return 1;
+  errno = 0; // whatever earlier calls left behind is not our concern
   __istream.getline(line, MAX_RECORD_CHARS);
 
   if (line[0] != '*' || line[1] != ' ')
-- 
2.43.0


From d07c5fc91c46914979c02c2f64d454137b1e5f58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:43 +0000
Subject: [PATCH 13/52] fix: the date of a short SP3 epoch header was read from
 uninitialised memory

---
 src/sp3c.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/sp3c.cpp b/src/sp3c.cpp
index 351adbf..21d9441 100644
--- a/src/sp3c.cpp
+++ b/src/sp3c.cpp
@@ -250,6 +250,7 @@ int Sp3c::get_next_epoch(ngpt::datetime<ngpt::microseconds> &t,
   if (!__istream.good())
     return 1;
   errno = 0; // whatever earlier calls left behind is not our concern
+  std::memset(line, 0, MAX_RECORD_CHARS);
   __istream.getline(line, MAX_RECORD_CHARS);
 
   if (line[0] != '*' || line[1] != ' ')
-- 
2.43.0


From d5cf848dc180e00f6a6852996c3cd240b4f03b9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:30 +0000
Subject: [PATCH 14/52] fix: skipping a navigation block of unknown length
 reported success, find_next looped on it forever

---
 src/navrnx.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/navrnx.cpp b/src/navrnx.cpp
index 089c089..daacf93 100644
--- a/src/navrnx.cpp
+++ b/src/navrnx.cpp
@@ -308,6 +308,8 @@ int NavigationRnx::ignore_next_block() noexcept {
   char line[MAX_RECORD_CHARS];
   int last_line_recs = 0;
   int lines_in_block = __lines_per_satsys_v3__(sys, last_line_recs);
+  if (lines_in_block < 0)
+    return 1;
   // read and skip lines
   for (int ln = 0; ln < lines_in_block; ln++) {
     if (!__istream.getline(line, MAX_RECORD_CHARS)) {
-- 
2.43.0


From 7c566e821dc3034f36a7ff42281ec35cb1d40b14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:30 +0000
Subject: [PATCH 15/52] fix: a navigation block starting with byte 0xFF was
 taken for the end of the file

---
 src/navrnx.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/navrnx.cpp b/src/navrnx.cpp
index daacf93..38130f1 100644
--- a/src/navrnx.cpp
+++ b/src/navrnx.cpp
@@ -294,7 +294,7 @@ int NavigationRnx::ignore_next_block() noexcept {
   if (!__istream.good())
     return 50;
 #endif
-  char s = __istream.peek();
+  int s = __istream.peek();
   if (s == EOF)
     return clear_stream(-1);
 
@@ -334,7 +334,7 @@ ngpt::SATELLITE_SYSTEM NavigationRnx::peak_satsys(int &status) noexcept {
   }
 #endif
   status = 0;
-  char s = __istream.peek();
+  int s = __istream.peek();
   if (s == EOF) {
     status = clear_stream(-1);
     return SATELLITE_SYSTEM::mixed;
-- 
2.43.0


From 6a5f26f8867435af83e72eb3fc1f2881fd013b2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:30 +0000
Subject: [PATCH 16/52] fix: find_next_valid ignored the documented prn -1 (any
 satellite)

---
 src/navrnx.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/navrnx.hpp b/src/navrnx.hpp
index 59dfa19..53efd01 100644
--- a/src/navrnx.hpp
+++ b/src/navrnx.hpp
@@ -659,7 +659,7 @@ public:
       if (csys == sys) {
         if ((status = this->read_next_record(frame)))
           return clear_stream(status);
-        if (prn == frame.prn()) {
+        if (prn == -1 || prn == frame.prn()) {
           auto toc = frame.toc<milliseconds>();
           // std::cout<<" found msg with ToC
           // "<<ngpt::strftime_ymd_hms<ngpt::milliseconds>(toc); are we too far
-- 
2.43.0


From 12031c70d687360b8e06698e9c935782105dafec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:30 +0000
Subject: [PATCH 17/52] fix: find_next_valid terminated the program for systems
 without a known health or validity

---
 src/navrnx.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/navrnx.hpp b/src/navrnx.hpp
index 53efd01..0acb911 100644
--- a/src/navrnx.hpp
+++ b/src/navrnx.hpp
@@ -670,6 +670,11 @@ public:
           // too far away!";
           if (toc > t && ngpt::delta_sec(toc, t) > limitT)
             return -1;
+          // health and validity are not available for all systems
+          if (sys != SATELLITE_SYSTEM::gps && sys != SATELLITE_SYSTEM::glonass &&
+              sys != SATELLITE_SYSTEM::galileo &&
+              sys != SATELLITE_SYSTEM::beidou)
+            return 3;
           // check SV health
           if (!(frame.sv_health())) {
             // std::cout<<" SV health ok";
-- 
2.43.0


From 89b0f2fc895c5762f96f4bb3d7e74a88e926fe14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:30 +0000
Subject: [PATCH 18/52] fix: navigation header fields of a short line were read
 from uninitialised memory

---
 src/navrnx.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/navrnx.cpp b/src/navrnx.cpp
index 38130f1..af4eea1 100644
--- a/src/navrnx.cpp
+++ b/src/navrnx.cpp
@@ -228,6 +228,7 @@ int NavigationRnx::read_header() noexcept {
 
   // Read the first line. Get version, data-type and sat. system.
   // ------------------------------------------------------------
+  std::memset(line, 0, MAX_HEADER_CHARS);
   __istream.getline(line, MAX_HEADER_CHARS);
   __version = std::strtof(line, &str_end);
   if (str_end == line)
@@ -243,9 +244,11 @@ int NavigationRnx::read_header() noexcept {
   // Keep on readling lines until 'END OF HEADER'.
   // ----------------------------------------------------
   int dummy_it = 0;
+  std::memset(line, 0, MAX_HEADER_CHARS);
   __istream.getline(line, MAX_HEADER_CHARS);
   while (dummy_it < MAX_HEADER_LINES &&
          std::strncmp(line + 60, "END OF HEADER", eoh_size)) {
+    std::memset(line, 0, MAX_HEADER_CHARS);
     __istream.getline(line, MAX_HEADER_CHARS);
     dummy_it++;
   }
-- 
2.43.0


From edf71982adf854c222d4adc7c034e82f3b56c047 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:03 +0000
Subject: [PATCH 19/52] fix: the second header line of an observation file was
 skipped

---
 src/obsrnx.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/obsrnx.cpp b/src/obsrnx.cpp
index ef2740a..ae9c936 100644
--- a/src/obsrnx.cpp
+++ b/src/obsrnx.cpp
@@ -193,7 +193,6 @@ int ObservationRnx::read_header() noexcept {
   __istream.getline(line, MAX_HEADER_CHARS);
   while (dummy_it < MAX_HEADER_LINES &&
          std::strncmp(line + 60, "END OF HEADER", eoh_size)) {
-    __istream.getline(line, MAX_HEADER_CHARS);
     if (!std::strncmp(line + 60, "MARKER NAME", std::strlen("MARKER NAME"))) {
       __marker_name = ngpt::rtrim(line, szt, 60);
     } else if (!std::strncmp(line + 60, "MARKER NUMBER",
@@ -253,6 +252,7 @@ int ObservationRnx::read_header() noexcept {
         return 61;
       }
     }
+    __istream.getline(line, MAX_HEADER_CHARS);
     dummy_it++;
   }
   if (dummy_it >= MAX_HEADER_LINES) {
-- 
2.43.0


From 245b18559da1fe9d26babfa6721080a258ea1adc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:03 +0000
Subject: [PATCH 20/52] fix: observation header labels of short lines came from
 earlier lines or indeterminate memory

---
 src/obsrnx.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/obsrnx.cpp b/src/obsrnx.cpp
index ae9c936..0754122 100644
--- a/src/obsrnx.cpp
+++ b/src/obsrnx.cpp
@@ -173,6 +173,7 @@ int ObservationRnx::read_header() noexcept {
 
   // Read the first line. Get version, data-type and sat. system.
   // ------------------------------------------------------------
+  std::memset(line, 0, sizeof line);
   __istream.getline(line, MAX_HEADER_CHARS);
   __version = std::strtof(line, &str_end);
   if (str_end == line)
@@ -190,6 +191,7 @@ int ObservationRnx::read_header() noexcept {
   int dummy_it = 0;
   std::size_t szt;
   char *end;
+  std::memset(line, 0, sizeof line);
   __istream.getline(line, MAX_HEADER_CHARS);
   while (dummy_it < MAX_HEADER_LINES &&
          std::strncmp(line + 60, "END OF HEADER", eoh_size)) {
@@ -252,6 +254,7 @@ int ObservationRnx::read_header() noexcept {
         return 61;
       }
     }
+    std::memset(line, 0, sizeof line);
     __istream.getline(line, MAX_HEADER_CHARS);
     dummy_it++;
   }
@@ -320,6 +323,7 @@ int ObservationRnx::__resolve_obstypes_304__(const char *cline) noexcept {
     ++resolved;
     ++vecsz;
     if (resolved == 13) {
+      std::memset(line, 0, sizeof line);
       __istream.getline(line, MAX_HEADER_CHARS);
       if (std::strncmp(line + 60, "SYS / # / OBS TYPES",
                        std::strlen("SYS / # / OBS TYPES"))) {
-- 
2.43.0


From 53eac8c322df25c2d43780fe97e00358ebc2d622 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:03 +0000
Subject: [PATCH 21/52] fix: a continuation line was demanded after exactly 13
 (26, ...) observation types

---
 src/obsrnx.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/obsrnx.cpp b/src/obsrnx.cpp
index 0754122..0a876ff 100644
--- a/src/obsrnx.cpp
+++ b/src/obsrnx.cpp
@@ -322,7 +322,7 @@ int ObservationRnx::__resolve_obstypes_304__(const char *cline) noexcept {
     }
     ++resolved;
     ++vecsz;
-    if (resolved == 13) {
+    if (resolved == 13 && vecsz < obsnum) {
       std::memset(line, 0, sizeof line);
       __istream.getline(line, MAX_HEADER_CHARS);
       if (std::strncmp(line + 60, "SYS / # / OBS TYPES",
-- 
2.43.0


From 898a64cf77ed1d543bec406985a54da357bb5460 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:04 +0000
Subject: [PATCH 22/52] fix: an unknown system letter in the observation types
 left a noexcept function as an exception

---
 src/obsrnx.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/obsrnx.cpp b/src/obsrnx.cpp
index 0a876ff..8e332ef 100644
--- a/src/obsrnx.cpp
+++ b/src/obsrnx.cpp
@@ -292,7 +292,14 @@ int ObservationRnx::__resolve_obstypes_304__(const char *cline) noexcept {
 
   char *end;
   std::vector<ngpt::ObservationCode> obsvec;
-  auto satsys = ngpt::char_to_satsys(line[0]);
+  SATELLITE_SYSTEM satsys;
+  try {
+    satsys = ngpt::char_to_satsys(line[0]);
+  } catch (std::exception &e) {
+    std::cerr << "\n[ERROR] ObservationRnx::read_header() Failed to resolve "
+                 "field: \"SYS / # / OBS TYPES\"";
+    return 5;
+  }
   if (__obstmap.find(satsys) != __obstmap.end()) {
     std::cerr << "\n[ERROR] ObservationRnx::read_header() Failed to resolve "
                  "field: \"SYS / # / OBS TYPES\"";
-- 
2.43.0


From a6cf1447a459918e8884682700bd1d45155b454c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:04 +0000
Subject: [PATCH 23/52] fix: a stale errno made a valid observation header be
 rejected

---
 src/obsrnx.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/obsrnx.cpp b/src/obsrnx.cpp
index 8e332ef..84b0cb6 100644
--- a/src/obsrnx.cpp
+++ b/src/obsrnx.cpp
@@ -230,6 +230,7 @@ int ObservationRnx::read_header() noexcept {
         return szt;
     } else if (!std::strncmp(line + 60, "RCV CLOCK OFFS APPL",
                              std::strlen("RCV CLOCK OFFS APPL"))) {
+      errno = 0;
       int i = std::strtol(line, &end, 10);
       if ((errno || (line + 3) == end) || (i != 0 && i != 1)) {
         errno = 0;
@@ -306,6 +307,7 @@ int ObservationRnx::__resolve_obstypes_304__(const char *cline) noexcept {
     std::cerr << "\n        Fatal Already resolved this satellite system!";
     return 1;
   }
+  errno = 0;
   int obsnum = std::strtol(line + 3, &end, 10);
   if (errno || (line + 3) == end) {
     errno = 0;
-- 
2.43.0


From 708b3220f7e99e520321d3a253c3fd408664f767 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:04 +0000
Subject: [PATCH 24/52] fix: __char2double__ failed on valid numbers when errno
 was set before

---
 src/nvarstr.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/nvarstr.hpp b/src/nvarstr.hpp
index 7c4ee64..9c92b7f 100644
--- a/src/nvarstr.hpp
+++ b/src/nvarstr.hpp
@@ -1,6 +1,8 @@
 #ifndef __NTUA_VARIOUS_STR_FUNCTIONS_HPP__
 #define __NTUA_VARIOUS_STR_FUNCTIONS_HPP__
 
+#include <cerrno>
+#include <cstdlib>
 #include <string>
 
 namespace ngpt {
@@ -85,6 +87,7 @@ std::string ltrim(const char *str, std::size_t &start,
 template <int N, int M>
 inline bool __char2double__(const char *line, double *data) noexcept {
   char *end;
+  errno = 0;
   for (int i = 0; i < N; i++) {
     data[i] = std::strtod(line, &end);
     if (line == end)
@@ -108,6 +111,7 @@ inline bool __char2double__(const char *line, double *data) noexcept {
 template <int M>
 inline bool __char2double__(const char *line, double *data, int N) noexcept {
   char *end;
+  errno = 0;
   for (int i = 0; i < N; i++) {
     data[i] = std::strtod(line, &end);
     if (line == end)
-- 
2.43.0


From d2615a9108edd0b9d64e66f6dfb42f35acc378f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:26 +0000
Subject: [PATCH 25/52] fix: LLI and SSI digits were taken as further decimals
 of the observation

---
 src/obsrnx.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/obsrnx.cpp b/src/obsrnx.cpp
index 84b0cb6..bfb19e6 100644
--- a/src/obsrnx.cpp
+++ b/src/obsrnx.cpp
@@ -58,7 +58,11 @@ int RawRnxObs__::resolve(char *str) noexcept {
     __val = RNXOBS_MISSING_VAL;
     return 0;
   }
+  // do not take the LLI and SSI digits as decimals of the value
+  const char lli = str[14];
+  str[14] = '\0';
   __val = std::strtod(str, &end);
+  str[14] = lli;
   if (errno || str == end) {
     errno = 0;
     return 1;
-- 
2.43.0


From 38a53046638277351e4079d71a97aefc0b4eb5ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:26 +0000
Subject: [PATCH 26/52] fix: a stale errno made valid observation records be
 rejected

---
 src/obsrnx.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/obsrnx.cpp b/src/obsrnx.cpp
index bfb19e6..e584187 100644
--- a/src/obsrnx.cpp
+++ b/src/obsrnx.cpp
@@ -58,6 +58,7 @@ int RawRnxObs__::resolve(char *str) noexcept {
     __val = RNXOBS_MISSING_VAL;
     return 0;
   }
+  errno = 0;
   // do not take the LLI and SSI digits as decimals of the value
   const char lli = str[14];
   str[14] = '\0';
@@ -396,6 +397,7 @@ int ObservationRnx::__resolve_epoch_304__(const char *cline,
   char *end;
   const char *start = cline + 2;
   int dints[5];
+  errno = 0;
   for (int i = 0; i < 5; i++) {
     dints[i] = static_cast<int>(std::strtol(start, &end, 10));
     if (errno || start == end) {
@@ -779,6 +781,7 @@ int ObservationRnx::sat_epoch_collect(const std::vector<vecof_idpair> &sysobs,
 
   std::memset(tbuf, '\0', 17);
   std::memcpy(tbuf, __buf + 1, 2);
+  errno = 0;
   prn = std::strtol(tbuf, &end, 10);
   if ((errno || tbuf == end) || (prn < 1 || prn > 99))
     return 1;
-- 
2.43.0


From 359203c5b2d823e081a696900e77ad586623c8ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:26 +0000
Subject: [PATCH 27/52] fix: a combination with a missing part got a value when
 another part followed

---
 src/obsrnx.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/obsrnx.cpp b/src/obsrnx.cpp
index e584187..3ec20c6 100644
--- a/src/obsrnx.cpp
+++ b/src/obsrnx.cpp
@@ -802,9 +802,12 @@ int ObservationRnx::sat_epoch_collect(const std::vector<vecof_idpair> &sysobs,
         } else {
           --status;
           obsval = RNXOBS_MISSING_VAL;
+          break;
         }
       } else {
-        raw_obs.__val = obsval = RNXOBS_MISSING_VAL;
+        --status;
+        obsval = RNXOBS_MISSING_VAL;
+        break;
       }
     }
     vals[k] = obsval;
-- 
2.43.0


From 5cbfced61b21dabd06eab3ead86c21859859927d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:26 +0000
Subject: [PATCH 28/52] fix: the last observation of a line without trailing
 blanks was lost

---
 src/obsrnx.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/obsrnx.cpp b/src/obsrnx.cpp
index 3ec20c6..5eefbc4 100644
--- a/src/obsrnx.cpp
+++ b/src/obsrnx.cpp
@@ -793,8 +793,9 @@ int ObservationRnx::sat_epoch_collect(const std::vector<vecof_idpair> &sysobs,
     double obsval = 0e0;
     for (const auto &pr : obsrv) { // for every raw obs. in observable
       std::size_t idx = pr.first * 16 + 3;
-      if (len >= idx + 16) { // line ends before column of observable
-        std::memcpy(tbuf, __buf + idx, 16);
+      if (len > idx) { // line ends before column of observable
+        std::memset(tbuf, ' ', 16);
+        std::memcpy(tbuf, __buf + idx, len < idx + 16 ? len - idx : 16);
         if (raw_obs.resolve(tbuf))
           return 2;
         if (raw_obs.__val != RNXOBS_MISSING_VAL) {
-- 
2.43.0


From 48544a9a6d25d19e331f42e3ef5a90c6eff3f409 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:26 +0000
Subject: [PATCH 29/52] fix: an epoch header without a number of satellites was
 accepted

---
 src/obsrnx.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/obsrnx.cpp b/src/obsrnx.cpp
index 5eefbc4..c74499c 100644
--- a/src/obsrnx.cpp
+++ b/src/obsrnx.cpp
@@ -432,7 +432,7 @@ int ObservationRnx::__resolve_epoch_304__(const char *cline,
 
   // resolve num of satellites in epoch
   num_sats = static_cast<int>(std::strtol(cline + 32, &end, 10));
-  if (errno || start == end) {
+  if (errno || cline + 32 == end) {
     std::cerr << "\n[ERROR] ObservationRnx::__resolve_epoch_304__() failed to "
                  "resolve num sats";
     std::cerr << "\n        Line was: \"" << cline << "\"";
@@ -441,6 +441,7 @@ int ObservationRnx::__resolve_epoch_304__(const char *cline,
   }
 
   // resolve clock offset if any
+  rcvr_coff = 0e0;
   if (lnlen > 41) {
     rcvr_coff =
         string_is_empty(cline + 41) ? 0e0 : std::strtod(cline + 41, &end);
-- 
2.43.0


From e48763e40ddc7aeee4f1766e30c6f5f66eae1c89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:26 +0000
Subject: [PATCH 30/52] fix: an invalid date in an epoch header was accepted
 (aborted in debug builds)

---
 src/obsrnx.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/obsrnx.cpp b/src/obsrnx.cpp
index c74499c..27c7318 100644
--- a/src/obsrnx.cpp
+++ b/src/obsrnx.cpp
@@ -409,10 +409,12 @@ int ObservationRnx::__resolve_epoch_304__(const char *cline,
     }
     start = ++end;
   }
-#ifdef DEBUG
   day_of_month dom(dints[2]);
-  assert(dom.is_valid(year(dints[0]), month(dints[1])));
-#endif
+  if (!dom.is_valid(year(dints[0]), month(dints[1]))) {
+    std::cerr << "\n[ERROR] ObservationRnx::__resolve_epoch_304__() invalid "
+                 "date";
+    return 2;
+  }
   mjd = ngpt::modified_julian_day(year(dints[0]), month(dints[1]),
                                   day_of_month(dints[2]));
 
-- 
2.43.0


From 3005fc2293d4c1248d1b7ec8ff05353b86fd63de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:26 +0000
Subject: [PATCH 31/52] fix: epoch headers did not fit the line buffer of files
 with few observables

---
 src/obsrnx.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/obsrnx.cpp b/src/obsrnx.cpp
index 27c7318..6cf4c50 100644
--- a/src/obsrnx.cpp
+++ b/src/obsrnx.cpp
@@ -95,6 +95,9 @@ ObservationRnx::ObservationRnx(const char *filename)
   }
   std::size_t maxobs = this->max_obs();
   __buf_sz = maxobs * 16 + 4;
+  // the buffer must also hold the epoch header lines
+  if (__buf_sz < MAX_HEADER_CHARS)
+    __buf_sz = MAX_HEADER_CHARS;
   __buf = new char[__buf_sz];
 }
 
-- 
2.43.0


From d113bfaa9a41b75201bc28daa4b656a284206692 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:26 +0000
Subject: [PATCH 32/52] fix: an epoch with more satellites than the output
 vector was written behind its end

---
 src/obsrnx.cpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/obsrnx.cpp b/src/obsrnx.cpp
index 6cf4c50..e5a5157 100644
--- a/src/obsrnx.cpp
+++ b/src/obsrnx.cpp
@@ -878,9 +878,6 @@ int ObservationRnx::collect_epoch(
       std::vector<std::pair<ngpt::Satellite, std::vector<double>>>::iterator;
 
   satscollected = 0;
-#ifdef DEBUG
-  assert(satobs.size() >= (std::size_t)numsats);
-#endif
   SATELLITE_SYSTEM s;
   int sat_it = 0, prn;
   OutputVecIt ovec_it = satobs.begin();
@@ -902,6 +899,8 @@ int ObservationRnx::collect_epoch(
     int status = 0;
     mmap_it it = mmap.end();
     if ((it = mmap.find(s)) != mmap.end()) {
+      if (ovec_it == satobs.end())
+        return 2;
       if ((status = sat_epoch_collect(mmap[s], prn, ovec_it->second)) > 0)
         return 1;
       Satellite sat(s, prn);
-- 
2.43.0


From 1932bf5d81c9567e207ba9db60fb5ca4d8cb6b92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:26 +0000
Subject: [PATCH 33/52] fix: the last epoch of a file without final newline was
 reported as end of file, a broken stream as success

---
 src/obsrnx.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/obsrnx.cpp b/src/obsrnx.cpp
index e5a5157..058fcf1 100644
--- a/src/obsrnx.cpp
+++ b/src/obsrnx.cpp
@@ -976,12 +976,13 @@ int ObservationRnx::read_next_epoch(
     // resolve observation block
     if ((j = collect_epoch(num_sats, sats, mmap, satobs)))
       return 30 + j;
+    return 0;
   }
   if (__istream.eof()) {
     __istream.clear();
     return -1;
   }
-  return 0;
+  return 10;
 }
 
 /// This function will return a vector with a big enough size to read all epochs
-- 
2.43.0


From 456d2a335295acfea171e1d87ca282d04565369f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:45 +0000
Subject: [PATCH 34/52] fix: moving an ObservationRnx left two owners of the
 line buffer (double delete)

---
 src/obsrnx.cpp | 22 +++++++++-------------
 src/obsrnx.hpp |  2 +-
 2 files changed, 10 insertions(+), 14 deletions(-)

diff --git a/src/obsrnx.cpp b/src/obsrnx.cpp
index 058fcf1..9e11122 100644
--- a/src/obsrnx.cpp
+++ b/src/obsrnx.cpp
@@ -98,17 +98,13 @@ ObservationRnx::ObservationRnx(const char *filename)
   // the buffer must also hold the epoch header lines
   if (__buf_sz < MAX_HEADER_CHARS)
     __buf_sz = MAX_HEADER_CHARS;
-  __buf = new char[__buf_sz];
+  __buf.resize(__buf_sz);
 }
 
 /// Destructor; close the stream and delete the allocated buffer
 ObservationRnx::~ObservationRnx() noexcept {
   if (__istream.is_open())
     __istream.close();
-  if (__buf) {
-    __buf_sz = 0;
-    delete[] __buf;
-  }
 }
 
 /// Loop through the observables of every satellite system, and return the
@@ -786,7 +782,7 @@ int ObservationRnx::sat_epoch_collect(const std::vector<vecof_idpair> &sysobs,
 #endif
 
   std::memset(tbuf, '\0', 17);
-  std::memcpy(tbuf, __buf + 1, 2);
+  std::memcpy(tbuf, __buf.data() + 1, 2);
   errno = 0;
   prn = std::strtol(tbuf, &end, 10);
   if ((errno || tbuf == end) || (prn < 1 || prn > 99))
@@ -794,14 +790,14 @@ int ObservationRnx::sat_epoch_collect(const std::vector<vecof_idpair> &sysobs,
 
   RawRnxObs__ raw_obs;
   int k = 0;
-  std::size_t len = std::strlen(__buf);
+  std::size_t len = std::strlen(__buf.data());
   for (const auto &obsrv : sysobs) { // For every observable in vector
     double obsval = 0e0;
     for (const auto &pr : obsrv) { // for every raw obs. in observable
       std::size_t idx = pr.first * 16 + 3;
       if (len > idx) { // line ends before column of observable
         std::memset(tbuf, ' ', 16);
-        std::memcpy(tbuf, __buf + idx, len < idx + 16 ? len - idx : 16);
+        std::memcpy(tbuf, __buf.data() + idx, len < idx + 16 ? len - idx : 16);
         if (raw_obs.resolve(tbuf))
           return 2;
         if (raw_obs.__val != RNXOBS_MISSING_VAL) {
@@ -885,13 +881,13 @@ int ObservationRnx::collect_epoch(
   // loop through every satellite in epoch
   while (sat_it < numsats) {
     // resolve satellite system
-    __istream.getline(__buf, __buf_sz);
+    __istream.getline(__buf.data(), __buf_sz);
     try {
-      s = char_to_satsys(*__buf);
+      s = char_to_satsys(__buf[0]);
     } catch (std::exception &e) {
       std::cerr << "\n[ERROR] ObservationRnx::collect_epoch() Failed to "
                    "resolve Satellite System";
-      std::cerr << "\n        Line was: \"" << __buf << "\"";
+      std::cerr << "\n        Line was: \"" << __buf.data() << "\"";
       return 1;
     }
 
@@ -966,11 +962,11 @@ int ObservationRnx::read_next_epoch(
   sats = 0;
   if ((c = __istream.peek()) != EOF) {
     // if not EOF, read next line; it should be an epoche header line
-    __istream.getline(__buf, __buf_sz);
+    __istream.getline(__buf.data(), __buf_sz);
     double rcvr_coff;
     int flag, num_sats;
     // resolve epoch header
-    if ((j = __resolve_epoch_304__(__buf, mjd, secofday, flag, num_sats,
+    if ((j = __resolve_epoch_304__(__buf.data(), mjd, secofday, flag, num_sats,
                                    rcvr_coff)))
       return 20 + j;
     // resolve observation block
diff --git a/src/obsrnx.hpp b/src/obsrnx.hpp
index 996437b..655b960 100644
--- a/src/obsrnx.hpp
+++ b/src/obsrnx.hpp
@@ -168,7 +168,7 @@ private:
   std::map<SATELLITE_SYSTEM, std::vector<ObservationCode>> __obstmap;
   ///< A char buffer which can hold an observation line
   ///< with maximum number of observables
-  char *__buf{nullptr};
+  std::vector<char> __buf;
   ///< Length of __buf, aka length of maximum observation
   ///< line in file (this->max_obs()*16+4)
   std::size_t __buf_sz{0};
-- 
2.43.0


From b36cfeee80c9115893e88fd7922cbc70e3255112 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:54 +0000
Subject: [PATCH 35/52] fix: an epoch header ending within its date was
 completed from the previous line

---
 src/obsrnx.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/obsrnx.cpp b/src/obsrnx.cpp
index 9e11122..e37890b 100644
--- a/src/obsrnx.cpp
+++ b/src/obsrnx.cpp
@@ -399,7 +399,7 @@ int ObservationRnx::__resolve_epoch_304__(const char *cline,
   errno = 0;
   for (int i = 0; i < 5; i++) {
     dints[i] = static_cast<int>(std::strtol(start, &end, 10));
-    if (errno || start == end) {
+    if (errno || start == end || !*end) {
       std::cerr << "\n[ERROR] ObservationRnx::__resolve_epoch_304__() failed "
                    "to resolve epoch";
       std::cerr << "\n        Line was: \"" << cline << "\"";
-- 
2.43.0


From 92312153ef22d5e2be4161978967cbef5fd0cef3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:26:45 +0000
Subject: [PATCH 36/52] fix: an antenna that an ANTEX file lacks was reported
 as found at an indeterminate position

---
 src/antex.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/antex.cpp b/src/antex.cpp
index 74b2de7..8e6de28 100644
--- a/src/antex.cpp
+++ b/src/antex.cpp
@@ -286,7 +286,8 @@ int Antex::find_closest_antenna_match(const ReceiverAntenna &ant_in,
 
   ReceiverAntenna cur_ant, best_match_ant;
   pos_type best_match_pos;
-  int stat1, stat2;
+  bool match_found = false;
+  int stat1, stat2 = 0;
 
   while (!(stat1 = read_next_antenna_type(cur_ant))) {
     if (cur_ant.is_same(ant_in)) {
@@ -297,12 +298,13 @@ int Antex::find_closest_antenna_match(const ReceiverAntenna &ant_in,
     if (cur_ant.compare_model(ant_in) && !cur_ant.has_serial()) {
       best_match_ant = cur_ant;
       best_match_pos = __istream.tellg();
+      match_found = true;
     }
     if ((stat2 = skip_rest_of_antenna()))
       break;
   }
   // some error status is set
-  if (stat1 > 0 || stat2) {
+  if (stat1 > 0 || stat2 || !match_found) {
     return 1;
   }
   ant_out = best_match_ant;
-- 
2.43.0


From bf56277db846a1eaaa993d678abd1c3f5809810e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:26:45 +0000
Subject: [PATCH 37/52] fix: a satellite of an ANTEX file got the SVN and
 COSPAR id of earlier ones, its line had no end

---
 src/antex.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/antex.cpp b/src/antex.cpp
index 8e6de28..65da09c 100644
--- a/src/antex.cpp
+++ b/src/antex.cpp
@@ -497,11 +497,11 @@ int Antex::find_satellite_antenna(int prn, SATELLITE_SYSTEM ss,
   __istream.seekg(__end_of_head, std::ios_base::beg);
 
   ReceiverAntenna cur_ant;
-  Satellite cur_sat;
-  int stat1, stat2;
+  int stat1, stat2 = 0;
 
   while (!(stat1 = read_next_antenna_type(cur_ant, line))) {
-    cur_sat.system() = SATELLITE_SYSTEM::mixed;
+    Satellite cur_sat;
+    line[60] = '\0';
     ant_pos = __istream.tellg();
     if (!resolve_satellite_antenna_line(line, cur_sat)) {
       if (cur_sat.prn() == prn && cur_sat.system() == ss) {
-- 
2.43.0


From 426368f1e2d7edcbdf703b75f0c9c9bb96cacd83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:26:45 +0000
Subject: [PATCH 38/52] fix: looking for the validity of a satellite antenna
 never ended when the ANTEX file did

---
 src/antex.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/antex.cpp b/src/antex.cpp
index 65da09c..44931a4 100644
--- a/src/antex.cpp
+++ b/src/antex.cpp
@@ -443,7 +443,7 @@ int check_time_interval(std::ifstream &fin,
     if (from_ok && to_ok)
       break;
   } while (std::strncmp(line + 60, "START OF FREQUENCY", 18) &&
-           dummy_it < max_lines);
+           ++dummy_it < max_lines);
   // do not use the following check
   // } while (std::strncmp(line+60, "END OF ANTENNA", 14) && dummy_it <
   // max_lines); cause this may leave the stream just after the line "END OF
@@ -451,7 +451,7 @@ int check_time_interval(std::ifstream &fin,
   // will cause a whole antenna record block to be skipped. This was indeed a
   // bug (for the function find_satellite_antenna()
 
-  if (++dummy_it >= max_lines) {
+  if (dummy_it >= max_lines) {
     return 20;
   }
 
-- 
2.43.0


From 2521a86837b70c47f20a1baca3cb55f89458906c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:26:45 +0000
Subject: [PATCH 39/52] fix: an invalid offset in an ANTEX file terminated the
 program

---
 src/antex.cpp | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/antex.cpp b/src/antex.cpp
index 44931a4..27059cf 100644
--- a/src/antex.cpp
+++ b/src/antex.cpp
@@ -763,12 +763,16 @@ int collect_pco(std::ifstream &fin, ngpt::AntennaPcoList &pco_list) noexcept {
     if (fin.getline(hline, MAX_HEADER_CHARS) &&
         !std::strncmp(hline + 60, "NORTH / EAST / UP", 17)) {
       tmp[10] = '\0';
-      std::memcpy(tmp, hline, 10);
-      dn = std::stod(tmp);
-      std::memcpy(tmp, hline + 10, 10);
-      de = std::stod(tmp);
-      std::memcpy(tmp, hline + 20, 10);
-      du = std::stod(tmp);
+      try {
+        std::memcpy(tmp, hline, 10);
+        dn = std::stod(tmp);
+        std::memcpy(tmp, hline + 10, 10);
+        de = std::stod(tmp);
+        std::memcpy(tmp, hline + 20, 10);
+        du = std::stod(tmp);
+      } catch (std::exception &) {
+        return 7;
+      }
     } else {
       return 7;
     }
-- 
2.43.0


From 24aedc66d72715934e8fa5771e878b9ed1f72521 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:26:45 +0000
Subject: [PATCH 40/52] fix: after reaching the end of an ANTEX file no antenna
 was found any more

---
 src/antex.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/antex.cpp b/src/antex.cpp
index 27059cf..645bc21 100644
--- a/src/antex.cpp
+++ b/src/antex.cpp
@@ -282,6 +282,7 @@ int Antex::find_closest_antenna_match(const ReceiverAntenna &ant_in,
                                       ReceiverAntenna &ant_out,
                                       pos_type &ant_pos) noexcept {
   // go to the top of the file, after the header
+  __istream.clear();
   __istream.seekg(__end_of_head, std::ios_base::beg);
 
   ReceiverAntenna cur_ant, best_match_ant;
@@ -494,6 +495,7 @@ int Antex::find_satellite_antenna(int prn, SATELLITE_SYSTEM ss,
   char line[MAX_HEADER_CHARS];
 
   // go to the top of the file, after the header
+  __istream.clear();
   __istream.seekg(__end_of_head, std::ios_base::beg);
 
   ReceiverAntenna cur_ant;
-- 
2.43.0


From 4219517dc7ad04340a40371b332a33ca9fb00b74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:26:45 +0000
Subject: [PATCH 41/52] fix: the COSPAR id (YYYY-XXXA) lost its last character
 and was indeterminate without one

---
 src/satellite.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/satellite.hpp b/src/satellite.hpp
index dd07986..0ffb1ab 100644
--- a/src/satellite.hpp
+++ b/src/satellite.hpp
@@ -27,7 +27,7 @@
 namespace ngpt {
 
 namespace detail {
-constexpr int COSPAR_ID_CHARS = 8;
+constexpr int COSPAR_ID_CHARS = 9;
 }
 
 /// @class Satellite
@@ -50,11 +50,11 @@ class Satellite {
 public:
   /// @brief Default constructor
   explicit Satellite(SATELLITE_SYSTEM s = SATELLITE_SYSTEM::mixed) noexcept
-      : __system(s), __prn(-1), __svn(-1), __antenna(){};
+      : __system(s), __prn(-1), __svn(-1), __antenna(), __cospar{} {};
 
   /// @brief Default constructor
   Satellite(SATELLITE_SYSTEM s, int PRN) noexcept
-      : __system(s), __prn(PRN), __svn(-1), __antenna(){};
+      : __system(s), __prn(PRN), __svn(-1), __antenna(), __cospar{} {};
 
   /// @brief   Get the antenna type (non-const)
   /// @return  The satellite's antenna model as SatelliteAntenna
-- 
2.43.0


From 9a78e028bdec442aa05eded174c35a0050b90d5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:31:13 +0000
Subject: [PATCH 42/52] fix: a first ANTEX line without a label was judged by
 indeterminate memory

---
 src/antex.cpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/antex.cpp b/src/antex.cpp
index 645bc21..d1f836b 100644
--- a/src/antex.cpp
+++ b/src/antex.cpp
@@ -112,7 +112,7 @@ void Antex::reset_to_file(const char *filename) {
 ///
 /// @see https://github.com/xanthospap/ngpt/blob/dev/src/antex.cpp
 int Antex::read_header() noexcept {
-  char line[MAX_HEADER_CHARS];
+  char line[MAX_HEADER_CHARS] = {};
 
   // The stream should be open by now!
   if (!__istream.is_open())
@@ -197,7 +197,7 @@ int Antex::read_header() noexcept {
 /// @return Anything other than 0, denotes an abnormal exit; An int < 0 denotes
 ///         EOF, while any integer > 0 denotes an error.
 int Antex::read_next_antenna_type(ReceiverAntenna &antenna, char *c) noexcept {
-  char line[MAX_HEADER_CHARS];
+  char line[MAX_HEADER_CHARS] = {};
 
   // The stream should be open by now!
   if (!__istream.is_open())
@@ -247,7 +247,7 @@ int Antex::read_next_antenna_type(ReceiverAntenna &antenna, char *c) noexcept {
 /// read and imidiately exit.
 /// @return Anything other than 0 denotes an error.
 int Antex::skip_rest_of_antenna() noexcept {
-  char line[MAX_GRID_CHARS];
+  char line[MAX_GRID_CHARS] = {};
   int max_antenna_lines = 5000;
 
   int dummy_it = 0;
@@ -412,7 +412,7 @@ int resolve_satellite_antenna_line(const char *line, Satellite &sat) noexcept {
 ///                 is returned.
 int check_time_interval(std::ifstream &fin,
                         const ngpt::datetime<ngpt::seconds> &at) noexcept {
-  char line[MAX_GRID_CHARS];
+  char line[MAX_GRID_CHARS] = {};
   int max_lines = 5000;
 
   // next field is 'METH / BY / # / DATE'
@@ -691,8 +691,8 @@ int Antex::get_antenna_pco(const ReceiverAntenna &ant_in,
 /// @param[out] pco_list Collected PCO values
 /// @return              Anything other than 0 denotes an error.
 int collect_pco(std::ifstream &fin, ngpt::AntennaPcoList &pco_list) noexcept {
-  char hline[MAX_HEADER_CHARS];
-  char gline[MAX_GRID_CHARS];
+  char hline[MAX_HEADER_CHARS] = {};
+  char gline[MAX_GRID_CHARS] = {};
   char tmp[11];
 
   // next field is 'METH / BY / # / DATE'
-- 
2.43.0


From 6455bec92660113bdeb7356027c6c815629f05ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:31:14 +0000
Subject: [PATCH 43/52] fix: a short ANTEX line was taken for the labelled line
 read before it

---
 src/antex.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/antex.cpp b/src/antex.cpp
index d1f836b..b98ff41 100644
--- a/src/antex.cpp
+++ b/src/antex.cpp
@@ -425,6 +425,7 @@ int check_time_interval(std::ifstream &fin,
   bool from_ok = false, to_ok = false;
   ngpt::datetime<ngpt::seconds> from, to;
   do {
+    line[60] = '\0'; // no label, if the line is shorter
     fin.getline(line, MAX_GRID_CHARS);
     if (!std::strncmp(line + 60, "VALID FROM", 10)) {
       try {
@@ -743,6 +744,7 @@ int collect_pco(std::ifstream &fin, ngpt::AntennaPcoList &pco_list) noexcept {
       // wait!! this might be a frequency rms from the previous frequency
       if (!std::strncmp(hline + 60, "START OF FREQ RMS", 17)) {
         do {
+          gline[60] = '\0'; // no label, if the line is shorter
           fin.getline(gline, MAX_GRID_CHARS);
         } while (fin && std::strncmp(gline + 60, "END OF FREQ RMS", 15));
         if (!fin.getline(hline, MAX_HEADER_CHARS) ||
@@ -782,6 +784,7 @@ int collect_pco(std::ifstream &fin, ngpt::AntennaPcoList &pco_list) noexcept {
     pco_list.__vecref__().emplace_back(obsc, ss, dn, de, du);
     // skip lines until "END OF FREQUENCY"
     do {
+      gline[60] = '\0'; // no label, if the line is shorter
       fin.getline(gline, MAX_GRID_CHARS);
     } while (fin && std::strncmp(gline + 60, "END OF FREQUENCY", 16));
     // read the following line into hline
-- 
2.43.0


From 9900a6f8b3873e81df7eafad6f75814ac9fe8ff2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:57:22 +0000
Subject: [PATCH 44/52] fix: GnssObservable::frequency terminated the program
 for an unknown band

The frequency of a part throws for a band its system does not have; the
exception could not leave the noexcept sum.
---
 src/gnssobsrv.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gnssobsrv.hpp b/src/gnssobsrv.hpp
index f6f37b9..6359782 100644
--- a/src/gnssobsrv.hpp
+++ b/src/gnssobsrv.hpp
@@ -125,7 +125,7 @@ public:
     __vec.emplace_back(sys, code, coef);
   }
 
-  double frequency() const noexcept {
+  double frequency() const {
     double frequency = 0e0;
     for (const auto &v : __vec)
       frequency += v.frequency();
-- 
2.43.0


From 95a5c25ff433e12c5c90d10fd69de1e702ba8a04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:00:03 +0000
Subject: [PATCH 45/52] fix: a stale errno from an earlier call made a valid
 SP3 header be rejected

---
 src/sp3c.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/sp3c.cpp b/src/sp3c.cpp
index 21d9441..c2f9952 100644
--- a/src/sp3c.cpp
+++ b/src/sp3c.cpp
@@ -58,6 +58,8 @@ int Sp3c::read_header() noexcept {
   if (!__istream.is_open())
     return 1;
 
+  errno = 0; // whatever earlier calls left behind is not our concern
+
   // Go to the top of the file.
   __istream.seekg(0);
 
-- 
2.43.0


From c54d50a95e7ed24d4f5155b304329722cbf07604 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:00:03 +0000
Subject: [PATCH 46/52] fix: a short SP3 header line was completed from the
 line before it (or from indeterminate memory)

---
 src/sp3c.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/sp3c.cpp b/src/sp3c.cpp
index c2f9952..c936211 100644
--- a/src/sp3c.cpp
+++ b/src/sp3c.cpp
@@ -65,6 +65,7 @@ int Sp3c::read_header() noexcept {
 
   // Read the first line. Error codes 10-19
   // ------------------------------------------------------------
+  std::memset(line, 0, MAX_HEADER_CHARS);
   __istream.getline(line, MAX_HEADER_CHARS);
   if (*line != '#')
     return 10; // validate version
@@ -115,6 +116,8 @@ int Sp3c::read_header() noexcept {
 
   // Read the second line. Error codes [20,30)
   // ------------------------------------------------------------
+  // (a short line must not be completed by the one before it)
+  std::memset(line, 0, MAX_HEADER_CHARS);
   __istream.getline(line, MAX_HEADER_CHARS);
   if (*line != '#' || line[1] != '#')
     return 20;
@@ -150,6 +153,7 @@ int Sp3c::read_header() noexcept {
   // '++'
   // Error code [10,40]
   // ------------------------------------------------------------
+  std::memset(line, 0, MAX_HEADER_CHARS);
   __istream.getline(line, MAX_HEADER_CHARS);
   if (*line != '+' || line[1] != ' ')
     return 30;
@@ -185,6 +189,7 @@ int Sp3c::read_header() noexcept {
   // two line follow, starting with '%c'; collect the system time
   // Error code [50,60]
   // ------------------------------------------------------------
+  std::memset(line, 0, MAX_HEADER_CHARS);
   __istream.getline(line, MAX_HEADER_CHARS);
   if (*line != '%' || line[1] != 'c')
     return 50;
-- 
2.43.0


From e8b06979e36c42728d1b15493fe0734054487dfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:00:03 +0000
Subject: [PATCH 47/52] fix: an SP3 header with an unreadable interval or a
 negative number of satellites was accepted

---
 src/sp3c.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/sp3c.cpp b/src/sp3c.cpp
index c936211..04248fd 100644
--- a/src/sp3c.cpp
+++ b/src/sp3c.cpp
@@ -135,6 +135,10 @@ int Sp3c::read_header() noexcept {
     return 22;
   }
   sec = std::strtod(line + 24, &str_end);
+  if (errno == ERANGE || str_end == line + 24) {
+    errno = 0;
+    return 25;
+  }
   interval__ = ngpt::microseconds(static_cast<long>(sec * 1e6));
   int mjd = std::strtol(line + 39, &str_end, 10);
   if (!mjd || errno == ERANGE) {
@@ -158,7 +162,7 @@ int Sp3c::read_header() noexcept {
   if (*line != '+' || line[1] != ' ')
     return 30;
   num_sats__ = std::strtol(line + 3, &str_end, 10);
-  if (!num_sats__ || errno == ERANGE) {
+  if (num_sats__ < 1 || errno == ERANGE) {
     errno = 0;
     return 31;
   }
-- 
2.43.0


From d054c6dbc107098f4119314925e728cd66156dba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:00:03 +0000
Subject: [PATCH 48/52] fix: rewinding an SP3 file did nothing after its end
 had been met

---
 src/sp3c.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/sp3c.cpp b/src/sp3c.cpp
index 04248fd..1da612c 100644
--- a/src/sp3c.cpp
+++ b/src/sp3c.cpp
@@ -38,6 +38,7 @@ Sp3c::Sp3c(const char *filename)
 }
 
 void Sp3c::rewind(pos_type pos) noexcept {
+  __istream.clear(); // an earlier failure would make the seekg do nothing
   if (pos == pos_type(-1)) {
     __istream.seekg(__end_of_head);
   } else {
-- 
2.43.0


From bd4f01f3a27907b7370c6fad49a32dafed834e0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:00:03 +0000
Subject: [PATCH 49/52] fix: the agency of an SP3 header lost its last
 character (columns 57-60)

---
 src/sp3c.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sp3c.cpp b/src/sp3c.cpp
index 1da612c..cb2e163 100644
--- a/src/sp3c.cpp
+++ b/src/sp3c.cpp
@@ -107,7 +107,7 @@ int Sp3c::read_header() noexcept {
   }
   crd_sys__ = std::string(line + 46, 5);
   orb_type__ = std::string(line + 52, 3);
-  agency__ = std::string(line + 56, 3);
+  agency__ = std::string(line + 56, 4);
 
   // all done for first line, construct the reference date
   start_epoch__ = ngpt::datetime<ngpt::microseconds>(
-- 
2.43.0


From d6f6d5136a0c37412c1310686d8228411ad94221 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:45:16 +0000
Subject: [PATCH 50/52] fix: SATELLIT look-ups failed when an earlier,
 unrelated numeric error was pending

---
 src/bern_utils.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/bern_utils.cpp b/src/bern_utils.cpp
index 704763e..6c2f127 100644
--- a/src/bern_utils.cpp
+++ b/src/bern_utils.cpp
@@ -1,6 +1,7 @@
 #include "bern_utils.hpp"
 #include "ggdatetime/datetime_read.hpp"
 #include <cassert>
+#include <cerrno>
 #include <cstring>
 #include <stdexcept>
 #ifdef DEBUG
@@ -47,6 +48,8 @@ int ngpt::BernSatellit::get_frequency_channel(
   if (!__istream.is_open())
     return 1;
 
+  errno = 0; // whatever earlier calls left behind is not our concern
+
   // Go to the top of the relevant field (in file)
   __istream.seekg(__part2);
 
-- 
2.43.0


From d62f7142a48355da0e8d45d90a5c09fcb8ad6ef1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:45:16 +0000
Subject: [PATCH 51/52] fix: no satellite was found in a SATELLIT table once a
 look-up had met the end of the file

---
 src/bern_utils.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/bern_utils.cpp b/src/bern_utils.cpp
index 6c2f127..a321670 100644
--- a/src/bern_utils.cpp
+++ b/src/bern_utils.cpp
@@ -50,7 +50,9 @@ int ngpt::BernSatellit::get_frequency_channel(
 
   errno = 0; // whatever earlier calls left behind is not our concern
 
-  // Go to the top of the relevant field (in file)
+  // Go to the top of the relevant field (in file); an earlier search may have
+  // met the end of the file
+  __istream.clear();
   __istream.seekg(__part2);
 
   // keep reading untill we match svn and epoch
-- 
2.43.0


From 87e864208ce33a70b0035fcc46f8a3dbaa976d63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:45:16 +0000
Subject: [PATCH 52/52] fix: short SATELLIT records were completed with the
 text of the record before

---
 src/bern_utils.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/bern_utils.cpp b/src/bern_utils.cpp
index a321670..da36c57 100644
--- a/src/bern_utils.cpp
+++ b/src/bern_utils.cpp
@@ -60,6 +60,8 @@ int ngpt::BernSatellit::get_frequency_channel(
   char *end;
   bool satellite_matched = false;
   ngpt::datetime<ngpt::seconds> start, stop;
+  // (a short line must not be completed by the one before it)
+  std::memset(line, 0, MAX_SATELLIT_CHARS);
   __istream.getline(line, MAX_SATELLIT_CHARS);
   while (!satellite_matched && line_count < max_lines) {
     // we are only interested in satellites of type: 'MW' everything else
@@ -95,6 +97,7 @@ int ngpt::BernSatellit::get_frequency_channel(
         }
       }
     }
+    std::memset(line, 0, MAX_SATELLIT_CHARS);
     __istream.getline(line, MAX_SATELLIT_CHARS);
     ++line_count;
     // check for end of records
-- 
2.43.0

