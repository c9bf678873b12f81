From 365b5605263a641d89a90d7dd0c6067e173788ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:56:14 +0000
Subject: [PATCH 01/26] fix: merge ranges into an empty extrema

extrema::update(extrema const &) compared the other minimum with an empty
optional, which is never greater, so the minimum of an empty range was
never set and MosaicImageFactory::make() dereferenced an empty optional.
---
 lib/marc/extrema.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/lib/marc/extrema.h b/lib/marc/extrema.h
index 21e38aa..a8f69ff 100644
--- a/lib/marc/extrema.h
+++ b/lib/marc/extrema.h
@@ -182,10 +182,12 @@ namespace MaRC
              * @todo Should we validate @c e.minimum_ and
              *       @c e.maximum_ as is done in the constructor?
              */
-            if (e.minimum_ && *e.minimum_ < this->minimum_)
+            if (e.minimum_
+                && (!this->minimum_ || *e.minimum_ < *this->minimum_))
                 this->minimum_ = *e.minimum_;
 
-            if (e.maximum_ && *e.maximum_ > this->maximum_)
+            if (e.maximum_
+                && (!this->maximum_ || *e.maximum_ > *this->maximum_))
                 this->maximum_ = *e.maximum_;
         }
 
-- 
2.43.0


From be590797ac4f621c67bd10110f79618cbfc6135c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:10:35 +0000
Subject: [PATCH 02/26] fix: refuse nibble values larger than the photo

---
 lib/marc/PhotoImageParameters.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/lib/marc/PhotoImageParameters.cpp b/lib/marc/PhotoImageParameters.cpp
index 995fa95..4323cda 100644
--- a/lib/marc/PhotoImageParameters.cpp
+++ b/lib/marc/PhotoImageParameters.cpp
@@ -138,14 +138,16 @@ MaRC::PhotoImageParameters::validate_parameters(std::size_t samples,
                                                 std::size_t lines) const
 {
     // Run some sanity checks on nibbling values
-    if (samples - this->nibble_right_ <= this->nibble_left_) {
+    if (this->nibble_right_ >= samples
+        || samples - this->nibble_right_ <= this->nibble_left_) {
         throw
             std::invalid_argument(
                 "Either the left or right (or both) "
                 "nibble value is too large.");
     }
 
-    if (lines - this->nibble_top_ <= this->nibble_bottom_) {
+    if (this->nibble_top_ >= lines
+        || lines - this->nibble_top_ <= this->nibble_bottom_) {
         throw
             std::invalid_argument(
                 "Either the top or bottom (or both) "
-- 
2.43.0


From ec910157fcabcf58662350b0c1973d8878422eda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:21:36 +0000
Subject: [PATCH 03/26] fix: test the photo pixel, not the caller's datum, for
 NaN

---
 lib/marc/PhotoImage.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/marc/PhotoImage.cpp b/lib/marc/PhotoImage.cpp
index 9e0b53a..84b63c3 100644
--- a/lib/marc/PhotoImage.cpp
+++ b/lib/marc/PhotoImage.cpp
@@ -145,7 +145,7 @@ MaRC::PhotoImage::read_data(double lat,
         || k <  this->top_
         || k >= this->bottom_
         || (!this->body_mask_.empty() && !this->body_mask_[index])
-        || std::isnan(data))
+        || std::isnan(this->image_[index]))
         return false;
 
     data = this->image_[index];
-- 
2.43.0


From 8dc56c1cf2753b8dd9e366cdc1b74df16c96459e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:21:42 +0000
Subject: [PATCH 04/26] fix: do not let a failed read alter the composited
 datum

---
 lib/marc/unweighted_average.cpp | 5 ++++-
 lib/marc/weighted_average.cpp   | 5 ++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/lib/marc/unweighted_average.cpp b/lib/marc/unweighted_average.cpp
index 3bb43a6..de59c22 100644
--- a/lib/marc/unweighted_average.cpp
+++ b/lib/marc/unweighted_average.cpp
@@ -45,7 +45,10 @@ MaRC::unweighted_average::composite(list_type const & images,
     int count = 0;
 
     for (auto const & i : images) {
-        if (i->read_data(lat, lon, data)) {
+        double datum = 0;  // May be altered by a failed read.
+
+        if (i->read_data(lat, lon, datum)) {
+            data = datum;
             sum += data;
             ++count;
         }
diff --git a/lib/marc/weighted_average.cpp b/lib/marc/weighted_average.cpp
index eea5ecf..e59de8c 100644
--- a/lib/marc/weighted_average.cpp
+++ b/lib/marc/weighted_average.cpp
@@ -33,7 +33,10 @@ MaRC::weighted_average::composite(list_type const & images,
         // Scan for data weight.
         static constexpr bool scan = true;
 
-        if (i->read_data(lat, lon, data, weight, scan)) {
+        double datum = 0;  // May be altered by a failed read.
+
+        if (i->read_data(lat, lon, datum, weight, scan)) {
+            data = datum;
             weighted_data_sum += weight * data;
             weight_sum += weight;
             ++count;
-- 
2.43.0


From ca4195f64f047a5c375ffd3a53d2214bdf761eed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:48:05 +0000
Subject: [PATCH 05/26] fix: measure data weights from the pixel to the closest
 off-body pixel

---
 lib/marc/PhotoImage.cpp | 97 ++++++++++++++++-------------------------
 lib/marc/PhotoImage.h   | 36 +++++++--------
 2 files changed, 54 insertions(+), 79 deletions(-)

diff --git a/lib/marc/PhotoImage.cpp b/lib/marc/PhotoImage.cpp
index 84b63c3..14d6705 100644
--- a/lib/marc/PhotoImage.cpp
+++ b/lib/marc/PhotoImage.cpp
@@ -170,58 +170,49 @@ MaRC::PhotoImage::read_data(double lat,
 }
 
 void
-MaRC::PhotoImage::scan_samples(std::size_t line,
-                               std::size_t left,
-                               std::size_t right,
+MaRC::PhotoImage::scan_samples(std::size_t i,
+                               std::size_t k,
                                double & weight) const
 {
-    // Scan across samples on given line.
-
-    auto const offset    = line * this->samples_;
-    auto       body_iter = std::cbegin(this->body_mask_) + offset;
-
-    // Search the half-open interval [left, right).
-    auto const begin  = body_iter + left;
-    auto const end    = body_iter + right;
-    auto const result = std::find(begin, end, true);
-
-    assert(begin <= result);
-
-    // The weight is the shortest distance.
-    if (result != end)
-        weight =
-            std::min(
-                static_cast<
-                std::remove_reference<decltype(weight)>::type>(
-                    std::distance(begin, result)),
-                weight);
+    // Scan across samples on line k, outward from sample i, for the
+    // closest off-body pixel on each side.
+    auto const offset = k * this->samples_;
+
+    for (std::size_t n = i; n < this->right_; ++n) {
+        if (!this->body_mask_[offset + n]) {
+            weight = std::min(weight, static_cast<double>(n - i));
+            break;
+        }
+    }
 
+    for (std::size_t n = i; n > this->left_; --n) {
+        if (!this->body_mask_[offset + n - 1]) {
+            weight = std::min(weight, static_cast<double>(i - n + 1));
+            break;
+        }
+    }
 }
 
 void
 MaRC::PhotoImage::scan_lines(std::size_t i,
-                             std::size_t top,
-                             std::size_t bottom,
+                             std::size_t k,
                              double & weight) const
 {
-    // Search the half-open interval [top, bottom).
-    auto body_iter =
-        std::cbegin(this->body_mask_) + (top * this->samples_) + i;
-
-    auto const first = top;
-    auto const last  = bottom;
-    auto       line = first;
-
-    for (; line < last && *body_iter; ++line)
-        std::advance(body_iter, this->samples_); // Sample i in next
-                                                 // line in mask.
-
-    if (line != last)
-        weight =
-            std::min(
-                static_cast<
-                std::remove_reference<decltype(weight)>::type>(line - first),
-                weight);
+    // Scan across lines on sample i, outward from line k, for the
+    // closest off-body pixel on each side.
+    for (std::size_t n = k; n < this->bottom_; ++n) {
+        if (!this->body_mask_[n * this->samples_ + i]) {
+            weight = std::min(weight, static_cast<double>(n - k));
+            break;
+        }
+    }
+
+    for (std::size_t n = k; n > this->top_; --n) {
+        if (!this->body_mask_[(n - 1) * this->samples_ + i]) {
+            weight = std::min(weight, static_cast<double>(k - n + 1));
+            break;
+        }
+    }
 }
 
 void
@@ -261,21 +252,9 @@ MaRC::PhotoImage::data_weight(std::size_t i,
     if (this->body_mask_.empty())
         return;
 
-    // -----------------------------------------------------
-
-    // Scan across the half-open interval [left, i) on line k.
-    this->scan_samples(k, this->left_, i, weight);
-
-    // Scan across the half-open interval [i, right) on line k.
-    this->scan_samples(k, i, this->right_, weight);
-
-    // -----------------------------------------------------
-
-    // Line numbers increase from top to bottom.
-
-    // Scan across the half-open interval [top, k) on sample i.
-    this->scan_lines(i, this->top_, k, weight);
+    // Scan across the samples on line k.
+    this->scan_samples(i, k, weight);
 
-    // Scan across the half-open interval [k, bottom) on sample i.
-    this->scan_lines(i, k, this->bottom_, weight);
+    // Scan across the lines on sample i.
+    this->scan_lines(i, k, weight);
 }
diff --git a/lib/marc/PhotoImage.h b/lib/marc/PhotoImage.h
index b287dfa..86a421e 100644
--- a/lib/marc/PhotoImage.h
+++ b/lib/marc/PhotoImage.h
@@ -131,35 +131,31 @@ namespace MaRC
         /**
          * @brief Scan across samples for the data weight.
          *
-         * Scan samples across the given line for the data weight in
-         * the half-open interval [left, right).
+         * Scan samples on the given line, outward from the given
+         * pixel, and lower the data weight to the distance to the
+         * closest off-body pixel on that line.
          *
-         * @param[in]  line   Image line across which scan should
-         *                    occur.
-         * @param[in]  left   Sample at which scan should be started.
-         * @param[in]  right  Sample at which scan should be stopped.
-         * @param[out] weight Data weight for the given image line.
+         * @param[in]     i      Image pixel sample.
+         * @param[in]     k      Image pixel line.
+         * @param[in,out] weight Data weight.
          */
-        void scan_samples(std::size_t line,
-                          std::size_t left,
-                          std::size_t right,
+        void scan_samples(std::size_t i,
+                          std::size_t k,
                           double & weight) const;
 
         /**
          * @brief Scan across lines for the data weight.
          *
-         * Scan lines across the given sample for the data weight in
-         * in the half-open interval [top, bottom).
+         * Scan lines on the given sample, outward from the given
+         * pixel, and lower the data weight to the distance to the
+         * closest off-body pixel on that sample.
          *
-         * @param[in]  sample Image sample across which scan should
-         *                    occur.
-         * @param[in]  top    Line at which scan should be started.
-         * @param[in]  bottom Line at which scan should be stopped.
-         * @param[out] weight Data weight for the given image sample.
+         * @param[in]     i      Image pixel sample.
+         * @param[in]     k      Image pixel line.
+         * @param[in,out] weight Data weight.
          */
-        void scan_lines(std::size_t sample,
-                        std::size_t top,
-                        std::size_t bottom,
+        void scan_lines(std::size_t i,
+                        std::size_t k,
                         double & weight) const;
 
         /**
-- 
2.43.0


From f4a80bb274810eef41298a3c6b716bd340de3ae7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:49:23 +0000
Subject: [PATCH 06/26] fix: interpolate along the right pixel edge with the
 right pixels

---
 lib/marc/BilinearInterpolation.cpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/lib/marc/BilinearInterpolation.cpp b/lib/marc/BilinearInterpolation.cpp
index 91226ed..948ac5c 100644
--- a/lib/marc/BilinearInterpolation.cpp
+++ b/lib/marc/BilinearInterpolation.cpp
@@ -61,10 +61,14 @@ MaRC::BilinearInterpolation::interpolate(double const * data,
         // [0][0]
         tmp += (data[ob + r] - data[ob + l]) * (x - l) + data[ob + l];
 
-        // [1][1] =
-        tmp += (data[ob + r] - data[ob + l]) * (z - b) + data[ob + r];
+        ++count;
+    }
 
-        count += 2;
+    if (!std::isnan(data[ot + r]) && !std::isnan(data[ob + r])) {
+        // [1][1]
+        tmp += (data[ot + r] - data[ob + r]) * (z - b) + data[ob + r];
+
+        ++count;
     }
 
     if (!std::isnan(data[ot + r]) && !std::isnan(data[ot + l])) {
-- 
2.43.0


From e5f5e29ac28eef4913c46f2a07f2c197325e8951 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:49:47 +0000
Subject: [PATCH 07/26] fix: undo the retrograde longitude offset when mapping
 pixels back

---
 lib/marc/ViewingGeometry.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/marc/ViewingGeometry.cpp b/lib/marc/ViewingGeometry.cpp
index b44a761..436457c 100644
--- a/lib/marc/ViewingGeometry.cpp
+++ b/lib/marc/ViewingGeometry.cpp
@@ -944,7 +944,7 @@ MaRC::ViewingGeometry::pix2latlon(double sample,
         if (this->body_->prograde())
             lon  = this->sub_observ_lon_ - lon;
         else
-            lon -= this->sub_observ_lon_;
+            lon += this->sub_observ_lon_;
     }
 
     return success == 0;
-- 
2.43.0


From 95351599340790ef7c817301c466d114725cd03b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:49:56 +0000
Subject: [PATCH 08/26] fix: hand line and sample to image_to_object in that
 order

---
 lib/marc/ViewingGeometry.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/marc/ViewingGeometry.cpp b/lib/marc/ViewingGeometry.cpp
index 436457c..4daed60 100644
--- a/lib/marc/ViewingGeometry.cpp
+++ b/lib/marc/ViewingGeometry.cpp
@@ -913,7 +913,7 @@ MaRC::ViewingGeometry::pix2latlon(double sample,
                                          // bottom (?)
 
     // Convert from image space to object space.
-    this->geometric_correction_->image_to_object(sample, line);
+    this->geometric_correction_->image_to_object(line, sample);
 
     // ---------------------------------------------
 
-- 
2.43.0


From 0d3e7988e4c0289151699abb076b1fe0889a09fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:20:16 +0000
Subject: [PATCH 09/26] fix: apply data range and grid interval defaults of the
 user configuration file

---
 src/parse.yy | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/parse.yy b/src/parse.yy
index 5255004..358f6ca 100644
--- a/src/parse.yy
+++ b/src/parse.yy
@@ -539,6 +539,12 @@ map:    map_parse
 ;
 
 user_file_parse:
+        {
+          // Start from the built-in defaults since the user may not
+          // override all of them.
+          lat_interval = pp.lat_interval;
+          lon_interval = pp.lon_interval;
+        }
         grid_intervals plane_data_range nibbling {
           // Reset defaults to those chosen by the user.  If none were
           // chosen by the user, the values will remain unchanged.
@@ -546,10 +552,10 @@ user_file_parse:
           pp.lat_interval = lat_interval;
           pp.lon_interval = lon_interval;
 
-          if (!minimum)
+          if (minimum)
               pp.minimum = minimum;
 
-          if (!maximum)
+          if (maximum)
               pp.maximum = maximum;
         }
 ;
-- 
2.43.0


From 08df2647f6f186382860a3d547b89bfd629f8c67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:20:44 +0000
Subject: [PATCH 10/26] fix: do not carry the latitude type of a latitude plane
 over to later planes and maps

---
 src/parse.yy | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/parse.yy b/src/parse.yy
index 358f6ca..9fe5da9 100644
--- a/src/parse.yy
+++ b/src/parse.yy
@@ -1383,6 +1383,9 @@ lat_plane: LATITUDE ':' lat_type {
             image_factory =
                 std::make_unique<MaRC::LatitudeImageFactory>(
                     oblate_spheroid, graphic_lat);
+
+            // Reset option
+            graphic_lat = false;
            }
 ;
 
-- 
2.43.0


From 8a679e277eb44e876e202de9f0f984fbe91bba6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:00:13 +0000
Subject: [PATCH 11/26] fix: enable sky removal by default, as documented

---
 lib/marc/PhotoImageParameters.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/marc/PhotoImageParameters.cpp b/lib/marc/PhotoImageParameters.cpp
index 4323cda..4e2c27b 100644
--- a/lib/marc/PhotoImageParameters.cpp
+++ b/lib/marc/PhotoImageParameters.cpp
@@ -32,7 +32,7 @@ MaRC::PhotoImageParameters::PhotoImageParameters()
         std::make_unique<MARC_DEFAULT_PHOTO_CORR_STRATEGY>())
     , interpolation_strategy_(
         std::make_unique<MARC_DEFAULT_INTERPOLATION_STRATEGY>())
-    , remove_sky_(false)
+    , remove_sky_(true)
 {
 }
 
-- 
2.43.0


From a46280b2a12586eda69e6d405e2b99d6f67e37ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:07:06 +0000
Subject: [PATCH 12/26] fix: scan the sign of a number as an operator in
 expressions

A sign in front of a digit was part of the number token, so that 3-2 was
a syntax error and -2^2 evaluated to 4 while - 2^2 evaluated to -4.
---
 src/lexer.ll |  2 +-
 src/parse.yy | 13 +++++++++++++
 2 files changed, 14 insertions(+), 1 deletion(-)

diff --git a/src/lexer.ll b/src/lexer.ll
index 936f3f5..5925051 100644
--- a/src/lexer.ll
+++ b/src/lexer.ll
@@ -115,7 +115,7 @@ void yyset_column(int, yyscan_t);
         "KM"                            { return KM;  }
         "CW"                            { return CW;  }
         "CCW"                           { return CCW; }
-        [-+]?[[:digit:]]*("."[[:digit:]]*)?(E[-+]?[[:digit:]]{1,3})?  {
+        [[:digit:]]*("."[[:digit:]]*)?(E[-+]?[[:digit:]]{1,3})?  {
             // String to number conversion occurs in the parser.
             yyget_lval(yyscanner)->sval = strdup(yyget_text(yyscanner));
 
diff --git a/src/parse.yy b/src/parse.yy
index 9fe5da9..aba6afd 100644
--- a/src/parse.yy
+++ b/src/parse.yy
@@ -876,6 +876,18 @@ integer: NUM {
             if (!from_string($1, $$))
                 YYERROR;
         }
+        | '+' NUM {
+            auto_free<char> str($2);
+            if (!from_string($2, $$))
+                YYERROR;
+        }
+        | '-' NUM {
+            auto_free<char> str($2);
+            std::string const negative(std::string("-") + $2);
+            if (!from_string(negative.c_str(), $$))
+                YYERROR;
+        }
+;
 
 size:   integer { $$ = $1; }
 ;
@@ -2160,6 +2172,7 @@ expr:   NUM {
             }
         }
         | '-' expr  %prec NEG   { $$ = -$2;                        }
+        | '+' expr  %prec NEG   { $$ = $2;                         }
         | expr '^' expr         { $$ = std::pow($1, $3);           }
         | '(' expr ')'          { $$ = $2;                         }
 ;
-- 
2.43.0


From 49161c89edd4f159144fc3e3666a339d1b432f8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:07:12 +0000
Subject: [PATCH 13/26] fix: refuse an integer entry that is not an integer

SAMPLES: 1e3 created a map one sample wide.
---
 src/parse.yy | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/parse.yy b/src/parse.yy
index aba6afd..cfad3b5 100644
--- a/src/parse.yy
+++ b/src/parse.yy
@@ -309,6 +309,12 @@ namespace
             return false;
         }
 
+        // E.g. "1e3" or "2.5" where an integer is expected.
+        if (*end != '\0') {
+            MaRC::error("invalid trailing characters in number ({})", str);
+            return false;
+        }
+
         return true;
     }
 }
-- 
2.43.0


From 00f933b515c0f03d6391227c41c94187fb1035fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:25:49 +0000
Subject: [PATCH 14/26] fix: release text discarded by the parser after a
 syntax error

---
 src/parse.yy | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/parse.yy b/src/parse.yy
index cfad3b5..f86df2f 100644
--- a/src/parse.yy
+++ b/src/parse.yy
@@ -460,6 +460,9 @@ using auto_free = std::unique_ptr<T, deallocate_with_free>;
 %type <sub_solar_data> sub_solar
 %type <radii_data> radii
 %type <val> eq_rad pol_rad flattening
+// Release text the parser discards when an error occurs.
+%destructor { std::free($$); } <sval>
+
 %right '='
 %left '-' '+'
 %left '*' '/'
-- 
2.43.0


From 24f5be6acbc21a2fe836f399279b62f5d2293ea9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:41:10 +0000
Subject: [PATCH 15/26] fix: write the last pixel of a map

---
 src/FITS_image_t.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/FITS_image_t.cpp b/src/FITS_image_t.cpp
index c2d8d9c..36e9a37 100644
--- a/src/FITS_image_t.cpp
+++ b/src/FITS_image_t.cpp
@@ -91,7 +91,7 @@ template <typename T>
 bool
 MaRC::FITS::image::write(T const & img)
 {
-    if (this->fpixel_>= this->max_elements_) {
+    if (this->fpixel_ > this->max_elements_) {
         MaRC::error("FITS image array is already fully written.");
 
         return false;
-- 
2.43.0


From 911fbf56c37be9d39a7ecaec9c6a454d84feec52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:41:15 +0000
Subject: [PATCH 16/26] fix: check that the FITS image was created before using
 it

---
 src/FITS_image.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/FITS_image.cpp b/src/FITS_image.cpp
index 05eb055..9e30ea1 100644
--- a/src/FITS_image.cpp
+++ b/src/FITS_image.cpp
@@ -64,6 +64,8 @@ MaRC::FITS::image::image(MaRC::FITS::file::shared_ptr fptr,
                              naxes,
                              &status);
 
+    MaRC::FITS::throw_on_error(status);
+
     update_fits_key(this->fptr_.get(),
                     "EXTNAME",
                     extname,
-- 
2.43.0


From 64670a6ead42674ecc2e2dff7450e2c60436ba5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:41:20 +0000
Subject: [PATCH 17/26] fix: report incorrect checksums of FITS input files

---
 src/FITS_file.cpp | 26 +++++++++++++++-----------
 1 file changed, 15 insertions(+), 11 deletions(-)

diff --git a/src/FITS_file.cpp b/src/FITS_file.cpp
index eb1e71e..2c05a73 100644
--- a/src/FITS_file.cpp
+++ b/src/FITS_file.cpp
@@ -350,20 +350,24 @@ MaRC::FITS::input_file::input_file(char const * filename)
     int hduok  = 0;
     int status = 0;
 
+    // CFITSIO reports an incorrect checksum through the "ok" arguments
+    // alone.  The status is only set if verification was not possible.
     if (fits_verify_chksum(this->fptr_.get(),
                            &dataok,
                            &hduok,
-                           &status) != 0) {
-        if (dataok == -1)  // Incorrect data checksum
-            MaRC::warn("Data checksum for FITS file \"{}\" "
-                       "is incorrect",
-                       filename);
-
-        if (hduok == -1)
-            MaRC::warn("Header checksum for FITS file \"{}\" "
-                       "is incorrect",
-                       filename);
-    }
+                           &status) != 0)
+        MaRC::warn("Unable to verify checksums of FITS file \"{}\"",
+                   filename);
+
+    if (dataok == -1)  // Incorrect data checksum
+        MaRC::warn("Data checksum for FITS file \"{}\" "
+                   "is incorrect",
+                   filename);
+
+    if (hduok == -1)
+        MaRC::warn("Header checksum for FITS file \"{}\" "
+                   "is incorrect",
+                   filename);
 }
 
 void
-- 
2.43.0


From ddf1a961f38f883dea8ee2a5f583c74c33e1c5e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:41:28 +0000
Subject: [PATCH 18/26] fix: fail when a map plane or the grid could not be
 written

---
 src/MapCommand.cpp   | 27 +++++++++++++++++----------
 src/MapCommand.h     | 10 ++++++++--
 src/MapCommand_t.cpp | 18 ++++++++++++++----
 3 files changed, 39 insertions(+), 16 deletions(-)

diff --git a/src/MapCommand.cpp b/src/MapCommand.cpp
index f86fa5c..3868348 100644
--- a/src/MapCommand.cpp
+++ b/src/MapCommand.cpp
@@ -147,25 +147,27 @@ MaRC::MapCommand::execute()
      */
     auto const start =  std::chrono::high_resolution_clock::now();
 
+    bool mapped = false;
+
     // Create and write the map planes.
     switch (this->parameters_->bitpix()) {
     case BYTE_IMG:
-        this->template make_map_planes<FITS::byte_type>(f);
+        mapped = this->template make_map_planes<FITS::byte_type>(f);
         break;
     case SHORT_IMG:
-        this->template make_map_planes<FITS::short_type>(f);
+        mapped = this->template make_map_planes<FITS::short_type>(f);
         break;
     case LONG_IMG:
-        this->template make_map_planes<FITS::long_type>(f);
+        mapped = this->template make_map_planes<FITS::long_type>(f);
         break;
     case LONGLONG_IMG:
-        this->template make_map_planes<FITS::longlong_type>(f);
+        mapped = this->template make_map_planes<FITS::longlong_type>(f);
         break;
     case FLOAT_IMG:
-        this->template make_map_planes<FITS::float_type>(f);
+        mapped = this->template make_map_planes<FITS::float_type>(f);
         break;
     case DOUBLE_IMG:
-        this->template make_map_planes<FITS::double_type>(f);
+        mapped = this->template make_map_planes<FITS::double_type>(f);
         break;
     default:
         // We should never get here.
@@ -181,7 +183,8 @@ MaRC::MapCommand::execute()
               << " seconds.\n";
 
     // Write the map grid if requested.
-    this->write_grid(f);
+    if (!this->write_grid(f) || !mapped)
+        return -1;
 
     std::cout << "Created map: " << this->filename_ << '\n';
 
@@ -206,11 +209,11 @@ MaRC::MapCommand::make_grid(long samples,
                                      lon_interval);
 }
 
-void
+bool
 MaRC::MapCommand::write_grid(MaRC::FITS::output_file & map_file)
 {
     if (!this->create_grid_)
-        return;
+        return true;
 
     constexpr std::size_t planes = 1;  // Only one grid image plane.
     static char const extname[] = "GRID";
@@ -258,8 +261,12 @@ MaRC::MapCommand::write_grid(MaRC::FITS::output_file & map_file)
     std::cout << "Completed mapping grid in " << seconds.count()
               << " seconds.\n";
 
-    if(!grid_image->template write<grid_type>(grid))
+    if(!grid_image->template write<grid_type>(grid)) {
         MaRC::error("Unable to write grid image to map file.");
+        return false;
+    }
+
+    return true;
 }
 
 void
diff --git a/src/MapCommand.h b/src/MapCommand.h
index 5be9882..b4f3f05 100644
--- a/src/MapCommand.h
+++ b/src/MapCommand.h
@@ -113,9 +113,12 @@ namespace MaRC
          *
          * @tparam        T    Map data type.
          * @param[in,out] file Object representing %FITS output file.
+         *
+         * @return @c true if all map planes were created and written,
+         *         and @c false otherwise.
          */
         template <typename T>
-        void make_map_planes(MaRC::FITS::output_file & file);
+        bool make_map_planes(MaRC::FITS::output_file & file);
 
         /**
          * @brief Create grid image.
@@ -140,8 +143,11 @@ namespace MaRC
          * @brief Write map grid to the map %FITS file.
          *
          * @param[in,out] file Object representing %FITS output file.
+         *
+         * @return @c true if the grid was written or none was
+         *         requested, and @c false otherwise.
          */
-        void write_grid(MaRC::FITS::output_file & file);
+        bool write_grid(MaRC::FITS::output_file & file);
 
         /**
          * @brief Automatically populate map parameters.
diff --git a/src/MapCommand_t.cpp b/src/MapCommand_t.cpp
index bd5f819..6bc97bd 100644
--- a/src/MapCommand_t.cpp
+++ b/src/MapCommand_t.cpp
@@ -27,7 +27,7 @@
 
 
 template <typename T>
-void
+bool
 MaRC::MapCommand::make_map_planes(MaRC::FITS::output_file & file)
 {
     // Create primary image array HDU.
@@ -123,13 +123,19 @@ MaRC::MapCommand::make_map_planes(MaRC::FITS::output_file & file)
 
     info.notifier().subscribe(std::make_unique<Progress::Console>());
 
+    bool success = true;
+
     // Create and write the map planes.
     for (auto const & i : this->image_factories_) {
         // Create the SourceImage.
         std::unique_ptr<SourceImage> const image(i->make(sof));
 
-        if (!image)
-            continue;  // Problem creating SourceImage.  Move on.
+        if (!image) {
+            // Problem creating SourceImage.  Move on.
+            MaRC::error("Unable to create a source image for the map.");
+            success = false;
+            continue;
+        }
 
         /**
          * @todo Move to @c MaRC::Progess::Console.
@@ -166,9 +172,11 @@ MaRC::MapCommand::make_map_planes(MaRC::FITS::output_file & file)
         if (!info.data_mapped())
             MaRC::warn("No data mapped for plane {}.", plane_count);
 
-        if (!map_image->template write<decltype(map)>(map))
+        if (!map_image->template write<decltype(map)>(map)) {
             MaRC::error("Unable to write plane {} to map file.",
                         plane_count);
+            success = false;
+        }
 
         ++plane_count;
     }
@@ -182,6 +190,8 @@ MaRC::MapCommand::make_map_planes(MaRC::FITS::output_file & file)
         map_image->template datamin<T>(*info.minimum());
         map_image->template datamax<T>(*info.maximum());
     }
+
+    return success;
 }
 
 
-- 
2.43.0


From ad1bf7a8d93a41341594264cb0c34628b976b78b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:41:36 +0000
Subject: [PATCH 19/26] fix: report map data that could not be flushed to the
 FITS file

---
 src/FITS_file.cpp  | 10 ++++++++++
 src/FITS_file.h    |  7 +++++++
 src/MapCommand.cpp |  3 +++
 3 files changed, 20 insertions(+)

diff --git a/src/FITS_file.cpp b/src/FITS_file.cpp
index 2c05a73..ab1eaf6 100644
--- a/src/FITS_file.cpp
+++ b/src/FITS_file.cpp
@@ -339,6 +339,16 @@ MaRC::FITS::output_file::make_image(int bitpix,
                                                extname);
 }
 
+void
+MaRC::FITS::output_file::flush()
+{
+    int status = 0;
+
+    fits_flush_file(this->fptr_.get(), &status);
+
+    throw_on_error(status);
+}
+
 
 // ----------------------------------------------------------------
 
diff --git a/src/FITS_file.h b/src/FITS_file.h
index 0ecdc26..9eaf953 100644
--- a/src/FITS_file.h
+++ b/src/FITS_file.h
@@ -300,6 +300,13 @@ namespace MaRC
                 size_t planes,
                 char const * extname = nullptr);
 
+            /**
+             * @brief Write all buffered data to the %FITS file.
+             *
+             * @throw std::runtime_error Error writing to %FITS file.
+             */
+            void flush();
+
         };
 
         // -------------------------------------------------------
diff --git a/src/MapCommand.cpp b/src/MapCommand.cpp
index 3868348..4058167 100644
--- a/src/MapCommand.cpp
+++ b/src/MapCommand.cpp
@@ -186,6 +186,9 @@ MaRC::MapCommand::execute()
     if (!this->write_grid(f) || !mapped)
         return -1;
 
+    // Don't claim success if buffered data could not be written.
+    f.flush();
+
     std::cout << "Created map: " << this->filename_ << '\n';
 
     return 0;
-- 
2.43.0


From 358c54a958b74c6894ad1fbc4a636b0525fbfcbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:44:20 +0000
Subject: [PATCH 20/26] fix: scale user supplied data range of virtual image
 planes like their data

---
 src/CosPhaseImageFactory.cpp  |  7 +++----
 src/LatitudeImageFactory.cpp  |  7 +++----
 src/LongitudeImageFactory.cpp |  7 +++----
 src/Mu0ImageFactory.cpp       |  7 +++----
 src/MuImageFactory.cpp        |  7 +++----
 src/SourceImageFactory.cpp    | 13 +++++++++++++
 src/SourceImageFactory.h      | 22 ++++++++++++++++++++++
 7 files changed, 50 insertions(+), 20 deletions(-)

diff --git a/src/CosPhaseImageFactory.cpp b/src/CosPhaseImageFactory.cpp
index 111e9f4..2f2365d 100644
--- a/src/CosPhaseImageFactory.cpp
+++ b/src/CosPhaseImageFactory.cpp
@@ -72,11 +72,10 @@ MaRC::CosPhaseImageFactory::make(scale_offset_functor calc_so)
     /*
       Set physical data extrema if not previously set.
 
-      Scale the default minimum and maximum to match the physical data
-      scaling.
+      Scale the minimum and maximum, including those set by the user,
+      to match the physical data scaling.
     */
-    this->minimum(cos_phase_low  * scale + offset);
-    this->maximum(cos_phase_high * scale + offset);
+    this->scale_extrema(cos_phase_low, cos_phase_high, scale, offset);
 
     return std::make_unique<MaRC::CosPhaseImage>(this->body_,
                                                  this->sub_observ_lat_,
diff --git a/src/LatitudeImageFactory.cpp b/src/LatitudeImageFactory.cpp
index 191a2f2..1fac315 100644
--- a/src/LatitudeImageFactory.cpp
+++ b/src/LatitudeImageFactory.cpp
@@ -72,11 +72,10 @@ MaRC::LatitudeImageFactory::make(scale_offset_functor calc_so)
     /*
       Set physical data extrema if not previously set.
 
-      Scale the default minimum and maximum to match the physical data
-      scaling.
+      Scale the minimum and maximum, including those set by the user,
+      to match the physical data scaling.
     */
-    this->minimum(latitude_low  * scale + offset);
-    this->maximum(latitude_high * scale + offset);
+    this->scale_extrema(latitude_low, latitude_high, scale, offset);
 
     return
         std::make_unique<MaRC::LatitudeImage>(this->body_,
diff --git a/src/LongitudeImageFactory.cpp b/src/LongitudeImageFactory.cpp
index ebb9e4a..63c9cc5 100644
--- a/src/LongitudeImageFactory.cpp
+++ b/src/LongitudeImageFactory.cpp
@@ -75,11 +75,10 @@ MaRC::LongitudeImageFactory::make(scale_offset_functor calc_so)
     /*
       Set physical data extrema if not previously set.
 
-      Scale the default minimum and maximum to match the physical data
-      scaling.
+      Scale the minimum and maximum, including those set by the user,
+      to match the physical data scaling.
     */
-    this->minimum(longitude_low  * scale + offset);
-    this->maximum(longitude_high * scale + offset);
+    this->scale_extrema(longitude_low, longitude_high, scale, offset);
 
     return std::make_unique<MaRC::LongitudeImage>(scale, offset);
 }
diff --git a/src/Mu0ImageFactory.cpp b/src/Mu0ImageFactory.cpp
index bd149d6..d153a7f 100644
--- a/src/Mu0ImageFactory.cpp
+++ b/src/Mu0ImageFactory.cpp
@@ -65,11 +65,10 @@ MaRC::Mu0ImageFactory::make(scale_offset_functor calc_so)
     /*
       Set physical data extrema if not previously set.
 
-      Scale the default minimum and maximum to match the physical data
-      scaling.
+      Scale the minimum and maximum, including those set by the user,
+      to match the physical data scaling.
     */
-    this->minimum(mu0_low  * scale + offset);
-    this->maximum(mu0_high * scale + offset);
+    this->scale_extrema(mu0_low, mu0_high, scale, offset);
 
     return std::make_unique<MaRC::Mu0Image>(this->body_,
                                             this->sub_solar_lat_,
diff --git a/src/MuImageFactory.cpp b/src/MuImageFactory.cpp
index 16d7670..161f38e 100644
--- a/src/MuImageFactory.cpp
+++ b/src/MuImageFactory.cpp
@@ -67,11 +67,10 @@ MaRC::MuImageFactory::make(scale_offset_functor calc_so)
     /*
       Set physical data extrema if not previously set.
 
-      Scale the default minimum and maximum to match the physical data
-      scaling.
+      Scale the minimum and maximum, including those set by the user,
+      to match the physical data scaling.
     */
-    this->minimum(mu_low  * scale + offset);
-    this->maximum(mu_high * scale + offset);
+    this->scale_extrema(mu_low, mu_high, scale, offset);
 
     return std::make_unique<MaRC::MuImage>(this->body_,
                                            this->sub_observ_lat_,
diff --git a/src/SourceImageFactory.cpp b/src/SourceImageFactory.cpp
index 4b7601c..2763be1 100644
--- a/src/SourceImageFactory.cpp
+++ b/src/SourceImageFactory.cpp
@@ -26,3 +26,16 @@ MaRC::SourceImageFactory::maximum(double datum)
     if (!this->extrema_.maximum())
         this->extrema_.maximum(datum);
 }
+
+void
+MaRC::SourceImageFactory::scale_extrema(double low,
+                                        double high,
+                                        double scale,
+                                        double offset)
+{
+    this->minimum(low);
+    this->maximum(high);
+
+    this->extrema_.minimum(*this->extrema_.minimum() * scale + offset);
+    this->extrema_.maximum(*this->extrema_.maximum() * scale + offset);
+}
diff --git a/src/SourceImageFactory.h b/src/SourceImageFactory.h
index 551d5ab..b7e2a4c 100644
--- a/src/SourceImageFactory.h
+++ b/src/SourceImageFactory.h
@@ -130,6 +130,28 @@ namespace MaRC
          */
         extrema_type const & minmax() const { return this->extrema_; }
 
+    protected:
+
+        /**
+         * @brief Scale the minimum and maximum physical data values.
+         *
+         * Apply the scale and offset applied to the physical data to
+         * the minimum and maximum physical data values as well,
+         * including those set by the user, so that they may be
+         * compared to the scaled data.
+         *
+         * @param[in] low    Minimum physical data value if it hasn't
+         *                   already been set.
+         * @param[in] high   Maximum physical data value if it hasn't
+         *                   already been set.
+         * @param[in] scale  Linear data scaling coefficient.
+         * @param[in] offset Data offset.
+         */
+        void scale_extrema(double low,
+                           double high,
+                           double scale,
+                           double offset);
+
     private:
 
         /**
-- 
2.43.0


From f2904f56a439ee24f06c1acdad792aa5489e7338 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:09:42 +0000
Subject: [PATCH 21/26] fix: fail when the rotation matrices of an image cannot
 be determined

ViewingGeometry::finalize_setup() ignored the failure reported by
rot_matrices() and went on with all-zero rotation matrices, e.g. for
an observer over the pole with the body center off the optical axis.
---
 lib/marc/ViewingGeometry.cpp | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/lib/marc/ViewingGeometry.cpp b/lib/marc/ViewingGeometry.cpp
index 4daed60..d4063f2 100644
--- a/lib/marc/ViewingGeometry.cpp
+++ b/lib/marc/ViewingGeometry.cpp
@@ -311,9 +311,12 @@ MaRC::ViewingGeometry::finalize_setup(std::size_t samples,
         // In case focal length and scale are not set or used.
         range_O[1] = -this->normal_range_;
 
-        this->rot_matrices(range_O,
-                           this->observ2body_,
-                           this->body2observ_);
+        if (!this->rot_matrices(range_O,
+                                this->observ2body_,
+                                this->body2observ_))
+            throw std::runtime_error("Unable to determine the orientation "
+                                     "of the body from the given viewing "
+                                     "geometry.");
     } else {
         double lon = this->sub_observ_lon_ - this->lon_at_center_;
 
@@ -429,11 +432,19 @@ MaRC::ViewingGeometry::rot_matrices(DVector const & range_o,
     double const test_diff_magnitude =
         (this->range_b_ - o2b * range_o).magnitude();
 
-    if (diff_magnitude > test_diff_magnitude) {
+    if (std::isnan(diff_magnitude)
+        || diff_magnitude > test_diff_magnitude) {
         diff_magnitude = test_diff_magnitude;
         observ2body = o2b;
     }
 
+    if (std::isnan(diff_magnitude)) {
+        // Neither root is the sine of an angle.
+        MaRC::error("unable to calculate suitable rotation matrices");
+
+        return false;  // Failure
+    }
+
     double const percent_diff =
         diff_magnitude / this->range_b_.magnitude() * 100;
 
-- 
2.43.0


From 504e29fceb8b67b5bc960b541230e8c9dd7f8572 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:04:50 +0000
Subject: [PATCH 22/26] fix: orthographic maps solve for the point on the body
 facing the observer

The linear coefficient of the quadratic equation for the distance along the
line of sight had the wrong sign for the rotation applied afterwards, so that
points of an oblate body seen from outside its equatorial plane were given
latitudes and longitudes of points not on the body (e.g. the centre of a map
asked for at latitude 50, longitude 100 was plotted as 49.24, 100.53).
---
 lib/marc/Orthographic.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/marc/Orthographic.cpp b/lib/marc/Orthographic.cpp
index f660d5c..c7af384 100644
--- a/lib/marc/Orthographic.cpp
+++ b/lib/marc/Orthographic.cpp
@@ -348,7 +348,7 @@ MaRC::Orthographic::plot_map(std::size_t samples,
             }
 
             double const CB =
-                diff * zz * std::sin(2 * this->sub_observ_lat_);
+                -diff * zz * std::sin(2 * this->sub_observ_lat_);
             double const CC =
                 a2 * zz * zz + c2 * x * x - a2 * c2 - diff *
                 zz * zz * std::pow(std::sin(this->sub_observ_lat_), 2);
-- 
2.43.0


From d38f25e61837aa6b3c68d693ea0b83d1f6416de7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:35:22 +0000
Subject: [PATCH 23/26] fix: images placed by the latitude and longitude at
 their center

The camera orientation found for LAT_AT_CENTER/LON_AT_CENTER always pointed
at the central meridian (the twist about the polar axis was computed from the
range vector, which lies in that plane, instead of from the optical axis) and
could be upside down; the body center was left undefined, so that removing the
sky aborted on an assertion.  Compute the twist from the optical axis, and set
the body center and scale that follow from the orientation.
---
 lib/marc/ViewingGeometry.cpp | 108 +++++++++++------------------------
 1 file changed, 32 insertions(+), 76 deletions(-)

diff --git a/lib/marc/ViewingGeometry.cpp b/lib/marc/ViewingGeometry.cpp
index d4063f2..65c308d 100644
--- a/lib/marc/ViewingGeometry.cpp
+++ b/lib/marc/ViewingGeometry.cpp
@@ -351,7 +351,20 @@ MaRC::ViewingGeometry::finalize_setup(std::size_t samples,
 
         // Set perpendicular distance from observer to image plane in
         // case focal length and scale are not set or used.
-        this->normal_range_ = -(this->body2observ_ * this->range_b_)[1];
+        // Range vector in observer (camera) coordinates.
+        DVector const range_O(this->body2observ_ * this->range_b_);
+
+        this->normal_range_ = -range_O[1];
+
+        if (std::isnan(this->km_per_pixel_))
+            this->km_per_pixel_ =
+                this->normal_range_ / this->focal_length_pixels_;
+
+        // The body center that corresponds to the optical axis.
+        this->sample_center_ =
+            this->OA_s_ - range_O[0] / this->km_per_pixel_;
+        this->line_center_ =
+            this->OA_l_ + range_O[2] / this->km_per_pixel_;
     }
 
     if (std::isnan(this->focal_length_pixels_)) {
@@ -505,7 +518,7 @@ MaRC::ViewingGeometry::rot_matrices(DVector const & range_o,
 
 // Get rotation matrices for case when lat/lon at optical axis were given
 void
-MaRC::ViewingGeometry::rot_matrices(DVector const & range_b,
+MaRC::ViewingGeometry::rot_matrices(DVector const & /* range_b */,
                                     DVector const & OA,
                                     DMatrix & observ2body,
                                     DMatrix & body2observ)
@@ -516,84 +529,27 @@ MaRC::ViewingGeometry::rot_matrices(DVector const & range_b,
     DVector UnitOpticalAxis(OA); // Optical axis in body coordinates
     UnitOpticalAxis.to_unit_vector();
 
-    // Cosine of the angle between the North pole and the optical
-    // axis.  No need to divide by the product of the vector
-    // magnitudes since they're both unit vectors (magnitudes of 1).
-    double const dotProd = MaRC::dot_product(body_north, UnitOpticalAxis);
-
-    double SubLatMod[2];
-
-    /**
-     * @todo Shouldn't this be @c (C::pi_2 @c - @c std::acos(dotProd)) ?
-     */
-    /*
-      Given cos(x):
-          asin(cos(x)) = x + pi/2
-          asin(-cos(x)) = -(x + pi/2)
-          x = pi/2 - asin(-cos(x))
-     */
-    // Try first possibility
-    SubLatMod[0] = std::asin(-dotProd);  // Angle between equatorial
-                                         // plane and OA.
-
-    DVector rotated;
-    Geometry::RotX(-SubLatMod[0], range_b, rotated);
-    DVector R_b = rotated;
-
-    double const Ztwist1 = std::atan2(R_b[0], -R_b[1]);
-
-    // Observer to body transformation
-    DMatrix o2b(Geometry::RotZMatrix(Ztwist1)
-                * (Geometry::RotXMatrix(SubLatMod[0])
-                   * Geometry::RotYMatrix(-this->position_angle_)));
-
-    observ2body = o2b;
-
-    // OA_O is the optical axis vector in observer coordinates.
-    DVector const OA_O(0,
-                       /**
-                        * @todo Shouldn't this be @c -OA.magnitude() ?
-                        */
-                       OA.magnitude(),
-                       0);
-
-    double diff_magnitude = (OA - o2b * OA_O).magnitude();
-
-    /**
-     * @todo This seems like a hack.  Why do we need to check a second
-     *       value?  There should only be one value with this approach
-     *       since.
-     */
-    // Try second possibility
-    SubLatMod[1] = C::pi - SubLatMod[0];
-    Geometry::RotX(-SubLatMod[1], range_b, rotated);
-    R_b = rotated;
+    // Angle between equatorial plane and optical axis.
+    double const SubLatMod =
+        std::atan2(-UnitOpticalAxis[2],
+                   std::hypot(UnitOpticalAxis[0], UnitOpticalAxis[1]));
 
-    double const Ztwist2 = std::atan2(R_b[0], -R_b[1]);
+    // Angle between the plane containing the observer and the polar
+    // axis, and the projection of the optical axis on the equatorial
+    // plane.
+    double const Ztwist =
+        std::atan2(UnitOpticalAxis[0], UnitOpticalAxis[1]);
 
     // Observer to body transformation
-    o2b =
-        Geometry::RotZMatrix(Ztwist2)
-        * (Geometry::RotXMatrix(SubLatMod[1])
+    observ2body =
+        Geometry::RotZMatrix(Ztwist)
+        * (Geometry::RotXMatrix(SubLatMod)
            * Geometry::RotYMatrix(-this->position_angle_));
 
-#ifndef NDEBUG
-    double Ztwist, SubLatModified;
-#endif  /* !NDEBUG */
-
-    double const diffmag = (OA - o2b * OA_O).magnitude();
-    if (diff_magnitude > diffmag) {
-        diff_magnitude = diffmag;
-        observ2body = o2b;
+    // OA_O is the optical axis vector in observer coordinates.
+    DVector const OA_O(0, OA.magnitude(), 0);
 
-#ifndef NDEBUG
-        SubLatModified = SubLatMod[1];
-        Ztwist = Ztwist2;
-    } else {
-        SubLatModified = SubLatMod[0];
-        Ztwist = Ztwist1;
-#endif  /* !NDEBUG */
-    }
+    double const diff_magnitude = (OA - observ2body * OA_O).magnitude();
 
     double const percent_diff =
         diff_magnitude / OA_O.magnitude() * 100;
@@ -636,10 +592,10 @@ MaRC::ViewingGeometry::rot_matrices(DVector const & range_b,
                  "Observer");
 
     MaRC::debug("position_angle_ = {} degrees (positive is CCW)\n"
-                "SubLatModified = {}\n"
+                "SubLatMod = {}\n"
                 "Ztwist = {}\n",
                 position_angle_ / C::degree,
-                SubLatModified / C::degree,
+                SubLatMod / C::degree,
                 Ztwist / C::degree);
 
     // North pole vector in camera (observer) coordinates.
-- 
2.43.0


From 23499ba7c3268bc8200e3e5a07cea25d848de701 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:36:53 +0000
Subject: [PATCH 24/26] fix: apply the camera's geometric correction to pixel
 positions

The correction strategies expect image positions, but were handed offsets from
the optical axis (or from the body center), so that the Galileo correction
displaced even the point on the optical axis by 0.84 pixels.
---
 lib/marc/ViewingGeometry.cpp | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/lib/marc/ViewingGeometry.cpp b/lib/marc/ViewingGeometry.cpp
index 65c308d..0ff3232 100644
--- a/lib/marc/ViewingGeometry.cpp
+++ b/lib/marc/ViewingGeometry.cpp
@@ -859,12 +859,13 @@ MaRC::ViewingGeometry::latlon2pix(double lat,
     x = rotated[0] / rotated[1] * this->focal_length_pixels_;
     z = rotated[2] / rotated[1] * this->focal_length_pixels_;
 
-    // Convert from object space to image space.
-    this->geometric_correction_->object_to_image(z, x);
-
     x += this->OA_s_;
     z  = this->OA_l_ - z; // Assumes line numbers increase top to
                           // bottom.
+
+    // Convert from object space to image space.
+    this->geometric_correction_->object_to_image(z, x);
+
     return true;
 }
 
@@ -874,14 +875,14 @@ MaRC::ViewingGeometry::pix2latlon(double sample,
                                   double & lat,
                                   double & lon) const
 {
+    // Convert from image space to object space.
+    this->geometric_correction_->image_to_object(line, sample);
+
     sample -= this->sample_center_;
     line    = this->line_center_ - line; // Negative since line
                                          // numbers increase top to
                                          // bottom (?)
 
-    // Convert from image space to object space.
-    this->geometric_correction_->image_to_object(line, sample);
-
     // ---------------------------------------------
 
     // Convert from observer coordinates to body coordinates
-- 
2.43.0


From 66b43b9bc084f476097391b939aa8bb34a88f3c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:37:24 +0000
Subject: [PATCH 25/26] fix: refuse non-positive ranges and numbers that are
 not numbers in input files

---
 src/parse.yy | 41 ++++++++++++++++++++++++++++++-----------
 1 file changed, 30 insertions(+), 11 deletions(-)

diff --git a/src/parse.yy b/src/parse.yy
index f86df2f..cf1fc95 100644
--- a/src/parse.yy
+++ b/src/parse.yy
@@ -781,7 +781,7 @@ grid_intervals:
 
 grid_interval:
         GRID_INTERVAL ':' expr {
-            if ($3 <= 0) {
+            if (!($3 > 0)) {
                 auto s = fmt::format("Grid interval value ({}) "
                                      "must be greater than zero.",
                                      $3);
@@ -796,7 +796,7 @@ grid_interval:
 
 lat_grid_interval:
         LAT_GRID_INTERVAL ':' expr {
-            if ($3 <= 0) {
+            if (!($3 > 0)) {
                 auto s = fmt::format("Latitude grid interval value ({}) "
                                      "must be greater than zero.",
                                      $3);
@@ -810,7 +810,7 @@ lat_grid_interval:
 
 lon_grid_interval:
         LON_GRID_INTERVAL ':' expr {
-            if ($3 <= 0) {
+            if (!($3 > 0)) {
                 auto s = fmt::format("Longitude grid interval value ({}) "
                                      "must be greater than zero.",
                                      $3);
@@ -1460,9 +1460,28 @@ terminator:
         | TERMINATOR ':' NO  { viewing_geometry->use_terminator(false); }
 ;
 
-range:  RANGE ':' expr  { $$ = $3; }
-        | RANGE ':' expr KM  { $$ = $3; }
+range:  RANGE ':' expr  {
+            if (!($3 > 0)) {
+                MaRC::error("incorrect range entered: {}", $3);
+                YYERROR;
+            }
+
+            $$ = $3;
+        }
+        | RANGE ':' expr KM  {
+            if (!($3 > 0)) {
+                MaRC::error("incorrect range entered: {}", $3);
+                YYERROR;
+            }
+
+            $$ = $3;
+        }
         | RANGE ':' expr AU  {
+            if (!($3 > 0)) {
+                MaRC::error("incorrect range entered: {}", $3);
+                YYERROR;
+            }
+
             // Convert astronomical units to kilometers.
             $$ = $3 * C::astronomical_unit
                 / 1000 /* (C::kilo * C::meter) */;
@@ -1752,7 +1771,7 @@ sub_solar:
 
 position_angle:
         POSITION_ANGLE ':' expr    {
-            if (std::abs($3) > 360) {
+            if (!(std::abs($3) <= 360)) {
                 MaRC::error("incorrect position (North) "
                             "angle entered: {}",
                             $3);
@@ -1762,7 +1781,7 @@ position_angle:
             $$ = circle_angle($3);
         }
         | POSITION_ANGLE ':' expr CW   {
-            if (std::abs($3) > 360) {
+            if (!(std::abs($3) <= 360)) {
                 MaRC::error("incorrect position (North) "
                             "angle entered: {} CW",
                             $3);
@@ -1772,7 +1791,7 @@ position_angle:
             $$ = 360 - circle_angle($3);
         }
         | POSITION_ANGLE ':' expr CCW    {
-            if (std::abs($3) > 360) {
+            if (!(std::abs($3) <= 360)) {
                 MaRC::error("incorrect position (North) "
                             "angle entered: {} CCW",
                             $3);
@@ -2125,7 +2144,7 @@ latitude_sub:
 
 longitude:
          expr {
-             if (std::abs($1) > 360) {
+             if (!(std::abs($1) <= 360)) {
                   MaRC::error("incorrect longitude entered: {}", $1);
                   YYERROR;
              }
@@ -2133,7 +2152,7 @@ longitude:
              $$ = circle_angle($1);
          }
          | expr 'E' {
-             if (std::abs($1) > 360) {
+             if (!(std::abs($1) <= 360)) {
                   MaRC::error("incorrect longitude entered: {} E", $1);
                   YYERROR;
              }
@@ -2144,7 +2163,7 @@ longitude:
                  $$ = 360 - $$;  // Convert to West longitude.
          }
          | expr 'W' {
-             if (std::abs($1) > 360) {
+             if (!(std::abs($1) <= 360)) {
                   MaRC::error("incorrect longitude entered: {} W", $1);
                   YYERROR;
              }
-- 
2.43.0


From 906d109f674c1dfeb6d7e4a87f984135957a8d22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:37:33 +0000
Subject: [PATCH 26/26] fix: refuse viewing geometry settings that are not
 numbers

---
 lib/marc/ViewingGeometry.cpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/lib/marc/ViewingGeometry.cpp b/lib/marc/ViewingGeometry.cpp
index 0ff3232..7f10b86 100644
--- a/lib/marc/ViewingGeometry.cpp
+++ b/lib/marc/ViewingGeometry.cpp
@@ -622,7 +622,7 @@ MaRC::ViewingGeometry::arcsec_per_pixel(double a)
      * @todo It should not be necessary to expect the caller to set
      *       the range prior to calling this function.
      */
-    if (a <= 0)
+    if (!(a > 0))
         throw std::invalid_argument("invalid number of arcseconds");
     else if (std::isnan(this->range_))
         throw std::logic_error("range not previously set");
@@ -656,7 +656,7 @@ MaRC::ViewingGeometry::arcsec_per_pixel(double a)
 void
 MaRC::ViewingGeometry::km_per_pixel(double value)
 {
-    if (value <= 0)
+    if (!(value > 0))
         throw std::invalid_argument("invalid kilometers per pixel");
 
     this->km_per_pixel_ =  value;
@@ -695,7 +695,7 @@ MaRC::ViewingGeometry::range(double r)
         std::sqrt(std::numeric_limits<decltype(this->range_)>::max());
 
     // Check if the observer is too close or too far.
-    if (r <= min_range || r >= max_range)
+    if (!(r > min_range && r < max_range))
         throw std::invalid_argument("invalid range");
 
     this->range_ = r;
@@ -704,7 +704,7 @@ MaRC::ViewingGeometry::range(double r)
 void
 MaRC::ViewingGeometry::focal_length(double len)
 {
-    if (len <= 0)
+    if (!(len > 0))
         throw std::invalid_argument("invalid focal length");
 
     this->focal_length_ = len;
@@ -713,7 +713,7 @@ MaRC::ViewingGeometry::focal_length(double len)
 void
 MaRC::ViewingGeometry::scale(double s)
 {
-    if (s <= 0)
+    if (!(s > 0))
         throw std::invalid_argument("invalid image scale");
 
     this->scale_ = s;
@@ -797,7 +797,7 @@ MaRC::ViewingGeometry::emi_ang_limit(double angle)
 {
     // Any emission angle beyond 90 degrees isn't visible.
     constexpr decltype(angle) max_emission_angle = 90;
-    if (std::abs(angle) > max_emission_angle)
+    if (!(std::abs(angle) <= max_emission_angle))
         throw std::domain_error("invalid emission angle limit");
 
     this->mu_limit_ = std::cos(angle * C::degree);
-- 
2.43.0

