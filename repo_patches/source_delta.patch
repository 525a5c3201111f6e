From 80ec14ef722cb8cfc0fc3d92644a29c9fd81d64e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:18:18 +0000
Subject: [PATCH 01/35] fix: galactic_to_ra_dec must be the inverse (transpose)
 of ra_dec_to_galactic

---
 .../boost/astronomy/coordinate/utility/utility.hpp   | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/include/boost/astronomy/coordinate/utility/utility.hpp b/include/boost/astronomy/coordinate/utility/utility.hpp
index 685066c..4b6454f 100644
--- a/include/boost/astronomy/coordinate/utility/utility.hpp
+++ b/include/boost/astronomy/coordinate/utility/utility.hpp
@@ -228,13 +228,13 @@ struct galactic_to_ra_dec
 
   galactic_to_ra_dec(){
     conv(0,0) = -0.0669887;
-    conv(0,1) = 0.8727558;
-    conv(0,2) = -0.4835389;
-    conv(1,0) = -0.4927285;
+    conv(0,1) = 0.4927285;
+    conv(0,2) = -0.8676008;
+    conv(1,0) = -0.8727558;
     conv(1,1) = -0.4503470;
-    conv(1,2) = -0.7445846;
-    conv(2,0) = -0.8676008;
-    conv(2,1) = 0.1883746;
+    conv(1,2) = -0.1883746;
+    conv(2,0) = -0.4835389;
+    conv(2,1) = 0.7445846;
     conv(2,2) = 0.4601998;
   }
 
-- 
2.43.0


From cf3e9ac36b1350a19b3f3c7d25dcf26f6b753700 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:00:38 +0000
Subject: [PATCH 02/35] fix: keep the components when building a coslat
 differential

make_spherical_coslat_differential(other) passed the scaled components through
a point transform, which folds them whenever dlon*cos(dlat) is negative.
---
 .../coordinate/diff/spherical_coslat_differential.hpp    | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/include/boost/astronomy/coordinate/diff/spherical_coslat_differential.hpp b/include/boost/astronomy/coordinate/diff/spherical_coslat_differential.hpp
index 9c0ab4f..10d005e 100644
--- a/include/boost/astronomy/coordinate/diff/spherical_coslat_differential.hpp
+++ b/include/boost/astronomy/coordinate/diff/spherical_coslat_differential.hpp
@@ -458,7 +458,14 @@ auto make_spherical_coslat_differential
             bu::quantity<bu::si::plane_angle, typename spherical_type::type>,
             bu::quantity<bu::si::plane_angle, typename spherical_type::type>,
             typename spherical_type::quantity3
-        >(temp.get_differential());
+        >
+        (
+            static_cast<bu::quantity
+                <bu::si::plane_angle, typename spherical_type::type>>(temp.get_dlat()),
+            static_cast<bu::quantity
+                <bu::si::plane_angle, typename spherical_type::type>>(temp.get_dlon()),
+            temp.get_ddist()
+        );
 }
 
 //!constructs cartesian object from spherical_coslat_differential
-- 
2.43.0


From a74a4dc1514fd8c7a52daf181136770bfbd2abf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:00:38 +0000
Subject: [PATCH 03/35] fix: coslat differential sum must undo the cos(lat)
 factor

operator+ converted the raw components to cartesian without dividing
dlon_coslat by cos(dlat).
---
 .../coordinate/diff/spherical_coslat_differential.hpp          | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/include/boost/astronomy/coordinate/diff/spherical_coslat_differential.hpp b/include/boost/astronomy/coordinate/diff/spherical_coslat_differential.hpp
index 10d005e..388b354 100644
--- a/include/boost/astronomy/coordinate/diff/spherical_coslat_differential.hpp
+++ b/include/boost/astronomy/coordinate/diff/spherical_coslat_differential.hpp
@@ -243,8 +243,7 @@ public:
     >
     operator +(Addend const& addend) const
     {
-        auto cartesian1 = make_cartesian_differential
-            <CoordinateType, DistQuantity, DistQuantity, DistQuantity>(this->diff);
+        auto cartesian1 = make_cartesian_differential(*this);
         auto cartesian2 = make_cartesian_differential(addend);
 
         auto temp = cartesian1 + cartesian2;
-- 
2.43.0


From 781cbece7b8dcc75b75c11a9179216b9f734601e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:00:38 +0000
Subject: [PATCH 04/35] fix: coslat differential product must keep its
 components

operator* sent the raw components through a point transform, which folds the
angles when dlon_coslat is negative.
---
 .../astronomy/coordinate/diff/spherical_coslat_differential.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/boost/astronomy/coordinate/diff/spherical_coslat_differential.hpp b/include/boost/astronomy/coordinate/diff/spherical_coslat_differential.hpp
index 388b354..00e0658 100644
--- a/include/boost/astronomy/coordinate/diff/spherical_coslat_differential.hpp
+++ b/include/boost/astronomy/coordinate/diff/spherical_coslat_differential.hpp
@@ -268,7 +268,7 @@ public:
     {
 
         spherical_coslat_differential
-            <CoordinateType, LatQuantity, LonQuantity, DistQuantity> temp(this->diff);
+            <CoordinateType, LatQuantity, LonQuantity, DistQuantity> temp(*this);
 
         spherical_coslat_differential
         <
-- 
2.43.0


From d70a400e77c76b77169010b13d3be98f0f781170 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:03:15 +0000
Subject: [PATCH 05/35] fix: alt_az::set_az takes an azimuth, not a distance

---
 include/boost/astronomy/coordinate/coord_sys/alt_az.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/boost/astronomy/coordinate/coord_sys/alt_az.hpp b/include/boost/astronomy/coordinate/coord_sys/alt_az.hpp
index 02d1150..408f738 100644
--- a/include/boost/astronomy/coordinate/coord_sys/alt_az.hpp
+++ b/include/boost/astronomy/coordinate/coord_sys/alt_az.hpp
@@ -229,7 +229,7 @@ public:
     }
 
     //!sets value of azimuth component of the coordinate
-    void set_az(typename Representation::quantity3 const& az)
+    void set_az(typename Representation::quantity2 const& az)
     {
         this->data.set_lon(az);
     }
-- 
2.43.0


From e8473cd23f6c4742a720b0ff62d5de234aa5f193 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:03:15 +0000
Subject: [PATCH 06/35] fix: supergalactic::set_sgl must not be const, it
 stores the longitude

---
 include/boost/astronomy/coordinate/coord_sys/supergalactic.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/boost/astronomy/coordinate/coord_sys/supergalactic.hpp b/include/boost/astronomy/coordinate/coord_sys/supergalactic.hpp
index 37203f1..0b8e8aa 100644
--- a/include/boost/astronomy/coordinate/coord_sys/supergalactic.hpp
+++ b/include/boost/astronomy/coordinate/coord_sys/supergalactic.hpp
@@ -202,7 +202,7 @@ public:
     }
 
     //!sets value of component sgl of the supergalactic coordinate
-    void set_sgl(typename Representation::quantity2 const& sgl) const
+    void set_sgl(typename Representation::quantity2 const& sgl)
     {
         this->data.set_lon(sgl);
     }
-- 
2.43.0


From 25bc2306c9613b378d70e4ec9952a3079230764f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:03:15 +0000
Subject: [PATCH 07/35] fix: make_equatorial_ha_coord returns the quantities in
 (ha, dec) order

---
 .../astronomy/coordinate/coord_sys/equatorial_ha_coord.hpp    | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/boost/astronomy/coordinate/coord_sys/equatorial_ha_coord.hpp b/include/boost/astronomy/coordinate/coord_sys/equatorial_ha_coord.hpp
index efd18b4..9035981 100644
--- a/include/boost/astronomy/coordinate/coord_sys/equatorial_ha_coord.hpp
+++ b/include/boost/astronomy/coordinate/coord_sys/equatorial_ha_coord.hpp
@@ -153,8 +153,8 @@ template
 equatorial_ha_coord
 <
     CoordinateType,
-    Declination<Unit1, CoordinateType>,
-    HourAngleQuantity<Unit2, CoordinateType>
+    HourAngleQuantity<Unit2, CoordinateType>,
+    Declination<Unit1, CoordinateType>
 > make_equatorial_ha_coord
 (
     HourAngleQuantity<Unit2, CoordinateType> const &Ha,
-- 
2.43.0


From 0935115972d501f5575822375c87c1db178d50db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:03:15 +0000
Subject: [PATCH 08/35] fix: cirs observation time accessors use the obs_time
 member

---
 include/boost/astronomy/coordinate/ref_frame/cirs.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/boost/astronomy/coordinate/ref_frame/cirs.hpp b/include/boost/astronomy/coordinate/ref_frame/cirs.hpp
index 975a88c..8cd4313 100644
--- a/include/boost/astronomy/coordinate/ref_frame/cirs.hpp
+++ b/include/boost/astronomy/coordinate/ref_frame/cirs.hpp
@@ -65,12 +65,12 @@ public:
 
     boost::posix_time::ptime get_obs_time() const
     {
-        return this->obstime;
+        return this->obs_time;
     }
 
     void set_obs_time(boost::posix_time::ptime const& time)
     {
-        this->obstime = time;
+        this->obs_time = time;
     }
 };
 
-- 
2.43.0


From ff6b53dc4ee1e25a2332ef0d4cb197aafe18006c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:03:15 +0000
Subject: [PATCH 09/35] fix: base_frame::get_proper_motion converts from the
 stored radians

---
 .../boost/astronomy/coordinate/ref_frame/base_frame.hpp   | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/include/boost/astronomy/coordinate/ref_frame/base_frame.hpp b/include/boost/astronomy/coordinate/ref_frame/base_frame.hpp
index 74d46d1..e398e1e 100644
--- a/include/boost/astronomy/coordinate/ref_frame/base_frame.hpp
+++ b/include/boost/astronomy/coordinate/ref_frame/base_frame.hpp
@@ -60,8 +60,12 @@ public:
     {
         return std::make_tuple
         (
-            Differential::quantity1::from_value(bg::get<0>(motion.get_differential())),
-            Differential::quantity2::from_value(bg::get<1>(motion.get_differential()))
+            static_cast<typename Differential::quantity1>
+                (bu::quantity<bu::si::plane_angle, typename Differential::type>::from_value
+                    (bg::get<0>(motion.get_differential()))),
+            static_cast<typename Differential::quantity2>
+                (bu::quantity<bu::si::plane_angle, typename Differential::type>::from_value
+                    (bg::get<1>(motion.get_differential())))
         );
     }
 
-- 
2.43.0


From 5b71b844471fce8f0632f8500c56af642e1b5b9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:04:12 +0000
Subject: [PATCH 10/35] fix: make_equatorial_ra_coord returns the quantities in
 (ra, dec) order

---
 .../astronomy/coordinate/coord_sys/equatorial_ra_coord.hpp    | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/boost/astronomy/coordinate/coord_sys/equatorial_ra_coord.hpp b/include/boost/astronomy/coordinate/coord_sys/equatorial_ra_coord.hpp
index 974e921..56d579e 100644
--- a/include/boost/astronomy/coordinate/coord_sys/equatorial_ra_coord.hpp
+++ b/include/boost/astronomy/coordinate/coord_sys/equatorial_ra_coord.hpp
@@ -151,8 +151,8 @@ template
 equatorial_ra_coord
 <
   CoordinateType,
-  Declination<Unit1, CoordinateType>,
-  RightAscensionQuantity<Unit2, CoordinateType>
+  RightAscensionQuantity<Unit2, CoordinateType>,
+  Declination<Unit1, CoordinateType>
 > make_equatorial_ra_coord
 (
     RightAscensionQuantity<Unit2, CoordinateType> const &Ra,
-- 
2.43.0


From d897ddb257c22920a17b01b0898772740d4b5cbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:04:32 +0000
Subject: [PATCH 11/35] fix: make_galactic_coord returns the quantities in
 (lat, lon) order

---
 .../boost/astronomy/coordinate/coord_sys/galactic_coord.hpp   | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/boost/astronomy/coordinate/coord_sys/galactic_coord.hpp b/include/boost/astronomy/coordinate/coord_sys/galactic_coord.hpp
index 9b75d39..f593c60 100644
--- a/include/boost/astronomy/coordinate/coord_sys/galactic_coord.hpp
+++ b/include/boost/astronomy/coordinate/coord_sys/galactic_coord.hpp
@@ -154,8 +154,8 @@ template
 galactic_coord
 <
     CoordinateType,
-    LonQuantity<Unit1, CoordinateType>,
-    LatQuantity<Unit2, CoordinateType>
+    LatQuantity<Unit2, CoordinateType>,
+    LonQuantity<Unit1, CoordinateType>
 > make_galactic_coord
 (
         LatQuantity<Unit2, CoordinateType> const &Lat,
-- 
2.43.0


From c8e6a380a8506baab1ee9dbce273ca09db621f81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:07:41 +0000
Subject: [PATCH 12/35] fix: angular separation of parallel directions must not
 be NaN

Rounding can push the cosine just above 1, std::acos then returned NaN, e.g.
for the separation of a point from itself.
---
 .../boost/astronomy/coordinate/ref_frame/base_frame.hpp   | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/include/boost/astronomy/coordinate/ref_frame/base_frame.hpp b/include/boost/astronomy/coordinate/ref_frame/base_frame.hpp
index e398e1e..2af3a3c 100644
--- a/include/boost/astronomy/coordinate/ref_frame/base_frame.hpp
+++ b/include/boost/astronomy/coordinate/ref_frame/base_frame.hpp
@@ -8,6 +8,7 @@ file License.txt or copy at https://www.boost.org/LICENSE_1_0.txt)
 #ifndef BOOST_ASTRONOMY_COORDINATE_BASE_COORDINATE_SYSTEM_HPP
 #define BOOST_ASTRONOMY_COORDINATE_BASE_COORDINATE_SYSTEM_HPP
 
+#include <algorithm>
 #include <tuple>
 #include <cmath>
 
@@ -109,9 +110,12 @@ public:
     //!angular separation between two coordinates in radians
     bu::quantity<bu::si::plane_angle> get_angular_separation(base_frame const& other) const
     {
+        double const cosine = (dot(this->data, other.get_data()) /
+            (magnitude(this->data) * magnitude(other.get_data()))).value();
+
+        //rounding can push the cosine of (anti)parallel directions just out of [-1, 1]
         return bu::quantity<bu::si::plane_angle>::from_value(
-            std::acos((dot(this->data, other.get_data()) /
-                (magnitude(this->data) * magnitude(other.get_data()))).value())
+            std::acos(std::max(-1.0, std::min(1.0, cosine)))
         );
     }
 
-- 
2.43.0


From ed2371f52b9a1cde521d08544bee1121b0103758 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:10:58 +0000
Subject: [PATCH 13/35] fix: the Gregorian calendar starts on 1582 October 15
 in julian_date

1582 October 2 to 4 are Julian dates; they were read as Gregorian ones, which
made the Julian date jump back by ten days.
---
 include/boost/astronomy/time/time_conversions.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/boost/astronomy/time/time_conversions.hpp b/include/boost/astronomy/time/time_conversions.hpp
index ca35717..eb0619c 100644
--- a/include/boost/astronomy/time/time_conversions.hpp
+++ b/include/boost/astronomy/time/time_conversions.hpp
@@ -54,10 +54,10 @@ double julian_date(boost::posix_time::ptime t)
         mprime = m;
     }
 
-    //Calculate B, check if the date is later than 1582 October 15
+    //Calculate B, check if the date is 1582 October 15 or later
     double B;
-    boost::gregorian::date dt1(1582, boost::gregorian::Oct , 1);
-    if ( dt > dt1 )
+    boost::gregorian::date dt1(1582, boost::gregorian::Oct , 15);
+    if ( dt >= dt1 )
     {
         double A = floor(yprime / 100);
         B = 2 - A + floor(A / 4);
-- 
2.43.0


From d129d470080f27776d8e7308cad6187611afc099 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:10:58 +0000
Subject: [PATCH 14/35] fix: GST must take the fractional seconds of the time
 into account

---
 include/boost/astronomy/time/time_conversions.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/boost/astronomy/time/time_conversions.hpp b/include/boost/astronomy/time/time_conversions.hpp
index eb0619c..70a5973 100644
--- a/include/boost/astronomy/time/time_conversions.hpp
+++ b/include/boost/astronomy/time/time_conversions.hpp
@@ -104,7 +104,7 @@ decimal_hour GST(boost::posix_time::ptime t)
     T0 = T0 - 24.0 * floor(T0/24.0);
 
     //Convert UT to decimal hours
-    double UT = ((t.time_of_day().seconds())/60.0 + t.time_of_day().minutes())/60.0 + t.time_of_day().hours();
+    double UT = t.time_of_day().total_microseconds() / 3600000000.0;
 
     //Multiply UT by 1.002737909
     double A = UT * 1.002737909;
-- 
2.43.0


From ed7c22b89b558e14042da2f8eb46ea4eb53a3c3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:10:58 +0000
Subject: [PATCH 15/35] fix: decimal_hour built from h, m, s must answer its
 getters

---
 include/boost/astronomy/time/parser.hpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/include/boost/astronomy/time/parser.hpp b/include/boost/astronomy/time/parser.hpp
index 926bf7c..b71e52e 100644
--- a/include/boost/astronomy/time/parser.hpp
+++ b/include/boost/astronomy/time/parser.hpp
@@ -36,9 +36,8 @@ public:
       seconds = secondsRemainder;
     }
 
-    decimal_hour(double const& h,double const& m,double const& s){
-      dh = h + m/60 + s/(60*60);
-    }
+    decimal_hour(double const& h,double const& m,double const& s) :
+      decimal_hour(h + m/60 + s/(60*60)) {}
 
     double get() const{
         return dh;
-- 
2.43.0


From 4f136a64185e1e11c44e22abf89361df40641cdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:04:35 +0000
Subject: [PATCH 16/35] fix: find_unit_end must not skip a block when already
 at a block boundary

---
 include/boost/astronomy/io/fits_stream.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/boost/astronomy/io/fits_stream.hpp b/include/boost/astronomy/io/fits_stream.hpp
index 9d41a05..dc10245 100644
--- a/include/boost/astronomy/io/fits_stream.hpp
+++ b/include/boost/astronomy/io/fits_stream.hpp
@@ -148,7 +148,7 @@ namespace boost {namespace astronomy {namespace io {
             std::size_t current_pos = this->file.tellg();
             std::size_t logical_record_size = 2880;
 
-            std::size_t offset = logical_record_size - (current_pos % logical_record_size);
+            std::size_t offset = (logical_record_size - (current_pos % logical_record_size)) % logical_record_size;
             std::size_t newpos = (current_pos + offset);
             return newpos;
         }
-- 
2.43.0


From c027b05ba45d80ec37c87f3c979a268b3285b0b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:04:35 +0000
Subject: [PATCH 17/35] fix: array descriptor k of a binary field starts at
 32-bit word 2k

---
 include/boost/astronomy/io/binary_data_converter.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/boost/astronomy/io/binary_data_converter.hpp b/include/boost/astronomy/io/binary_data_converter.hpp
index 10466ce..d2829ae 100644
--- a/include/boost/astronomy/io/binary_data_converter.hpp
+++ b/include/boost/astronomy/io/binary_data_converter.hpp
@@ -325,9 +325,9 @@ namespace boost{namespace astronomy{namespace io{
         for (std::size_t i = 0; i < num_elements; i++) {
             values.emplace_back(
                 boost::endian::big_to_native(
-                    *(reinterpret_cast<const boost::int32_t*>(elements.c_str()) + i)),
+                    *(reinterpret_cast<const boost::int32_t*>(elements.c_str()) + 2 * i)),
                 boost::endian::big_to_native(
-                    *(reinterpret_cast<const boost::int32_t*>(elements.c_str()) + i +
+                    *(reinterpret_cast<const boost::int32_t*>(elements.c_str()) + 2 * i +
                         1)));
         }
         return values;
-- 
2.43.0


From 170e7b96fddc108f147ae837e9c25dab8641f871 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:04:35 +0000
Subject: [PATCH 18/35] fix: binary table fields are raw bytes and must not be
 trimmed

---
 include/boost/astronomy/io/binary_table.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/boost/astronomy/io/binary_table.hpp b/include/boost/astronomy/io/binary_table.hpp
index b43218b..4d4b9d9 100644
--- a/include/boost/astronomy/io/binary_table.hpp
+++ b/include/boost/astronomy/io/binary_table.hpp
@@ -340,7 +340,7 @@ private:
             starting_offset = ending_offset;
             ending_offset = starting_offset + column_size(this->col_metadata_[current_column].TFORM());
 
-            this->tb_data[current_row][current_column++] = boost::algorithm::trim_copy(std::string(starting_offset, ending_offset));
+            this->tb_data[current_row][current_column++] = std::string(starting_offset, ending_offset);
             if (current_column % this->tfields_ == 0) {
                 current_row++;
                 current_column = 0;
-- 
2.43.0


From 134cf0587bc85062db127e0065f4267b77ef7d61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:04:35 +0000
Subject: [PATCH 19/35] fix: BITPIX 8 pixels are unsigned bytes

---
 include/boost/astronomy/io/bitpix.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/boost/astronomy/io/bitpix.hpp b/include/boost/astronomy/io/bitpix.hpp
index 855fd53..143799e 100644
--- a/include/boost/astronomy/io/bitpix.hpp
+++ b/include/boost/astronomy/io/bitpix.hpp
@@ -64,7 +64,7 @@ enum class bitpix
 
  template<>
  struct bitpix_type<bitpix::B8> {
-     typedef typename boost::int8_t underlying_type;
+     typedef typename boost::uint8_t underlying_type;
  };
 
  template<>
-- 
2.43.0


From 48ca0b3e3a19a48c6a1a6b38eac5748b8bdc577d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:04:35 +0000
Subject: [PATCH 20/35] fix: card::set_value must keep the value indicator and
 the card length

---
 include/boost/astronomy/io/card.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/boost/astronomy/io/card.hpp b/include/boost/astronomy/io/card.hpp
index 634532a..783ae47 100644
--- a/include/boost/astronomy/io/card.hpp
+++ b/include/boost/astronomy/io/card.hpp
@@ -179,7 +179,9 @@ public:
             std::string key = this->keyword(true);
             this->card_.clear();
             this->card_.append(key);
+            this->card_.append("= ");
             this->card_.append(serialized_value);
+            this->card_.append(80 - this->card_.length(), ' ');
             card_cache = value;
         }
     }
-- 
2.43.0


From 5e2aa65d3e745107af4cc095039aea9327635c98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:04:35 +0000
Subject: [PATCH 21/35] fix: a card must not return a value cached for another
 content or type

---
 include/boost/astronomy/io/card.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/boost/astronomy/io/card.hpp b/include/boost/astronomy/io/card.hpp
index 783ae47..c9faf7d 100644
--- a/include/boost/astronomy/io/card.hpp
+++ b/include/boost/astronomy/io/card.hpp
@@ -121,6 +121,7 @@ public:
         if (this->is_key_valid(key)) {
             std::string card_content = key + "  " + value;
             this->card_ = card_content;
+            this->card_cache = boost::blank();
             this->card_.append(80 - card_content.length(),' ');
             return;
         }
@@ -151,7 +152,7 @@ public:
     template <typename ReturnType>
     ReturnType value() const
     {
-        if (!value_cached()) {
+        if (!value_cached() || boost::get<ReturnType>(&card_cache) == nullptr) {
             card_cache =value_imp(boost::type<ReturnType>());
         }
         return boost::get<ReturnType>(card_cache); 
@@ -213,6 +214,7 @@ private:
             }
 
             this->card_.append(80 - this->card_.length(), ' ');
+            this->card_cache = boost::blank();
             return;
         }
 
-- 
2.43.0


From 3f139a356d0707d5cf186d803280a60d73fde796 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:04:35 +0000
Subject: [PATCH 22/35] fix: commentary cards pad the keyword to 8 characters
 and reject over-long text

---
 include/boost/astronomy/io/card.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/boost/astronomy/io/card.hpp b/include/boost/astronomy/io/card.hpp
index c9faf7d..0c95a61 100644
--- a/include/boost/astronomy/io/card.hpp
+++ b/include/boost/astronomy/io/card.hpp
@@ -118,8 +118,8 @@ public:
     */
     void create_commentary_card(std::string const& key, std::string const& value)
     {
-        if (this->is_key_valid(key)) {
-            std::string card_content = key + "  " + value;
+        if (this->is_card_valid(key, value, "")) {
+            std::string card_content = this->format_keyword(key) + " " + value;
             this->card_ = card_content;
             this->card_cache = boost::blank();
             this->card_.append(80 - card_content.length(),' ');
-- 
2.43.0


From 70c54041f709546037f059e8fd53ac140468fbaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:04:35 +0000
Subject: [PATCH 23/35] fix: extract_value: a slash inside a string or right
 after the value

---
 include/boost/astronomy/io/default_card_policy.hpp | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/include/boost/astronomy/io/default_card_policy.hpp b/include/boost/astronomy/io/default_card_policy.hpp
index afb075f..407ed4c 100644
--- a/include/boost/astronomy/io/default_card_policy.hpp
+++ b/include/boost/astronomy/io/default_card_policy.hpp
@@ -214,7 +214,18 @@ public:
      * @param[in] fits_card fits card from where the value needs to be extracted
     */
     std::string extract_value(const std::string& fits_card) const {
-        return fits_card.substr(9, fits_card.find('/') - 10);
+        std::size_t search_pos = fits_card.find_first_not_of(' ', 10);
+        if (search_pos != std::string::npos && fits_card[search_pos] == '\'') {
+            search_pos = fits_card.find('\'', search_pos + 1);
+        }
+        std::size_t value_end = (search_pos == std::string::npos) ? std::string::npos : fits_card.find('/', search_pos);
+        if (value_end == std::string::npos) {
+            return fits_card.substr(9);
+        }
+        if (value_end > 9 && fits_card[value_end - 1] == ' ') {
+            --value_end;
+        }
+        return fits_card.substr(9, value_end - 9);
     }
 
 private:
-- 
2.43.0


From 8394cb8800ea33067c8402d57c9a0847a1a8bb59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:04:35 +0000
Subject: [PATCH 24/35] fix: numbers longer than 20 characters must not
 underflow the padding

---
 include/boost/astronomy/io/default_card_policy.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/boost/astronomy/io/default_card_policy.hpp b/include/boost/astronomy/io/default_card_policy.hpp
index 407ed4c..e3e7955 100644
--- a/include/boost/astronomy/io/default_card_policy.hpp
+++ b/include/boost/astronomy/io/default_card_policy.hpp
@@ -149,7 +149,9 @@ public:
         value_stream << value;
         val = value_stream.str();
 
-        val.insert(0, 20 - val.length(), ' ');
+        if (val.length() < 20) {
+            val.insert(0, 20 - val.length(), ' ');
+        }
         return val;
     }
 
-- 
2.43.0


From 3d552b31393461373b0176cce8bf0e1243525963 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:04:35 +0000
Subject: [PATCH 25/35] fix: parse the complex values that create_card writes

---
 include/boost/astronomy/io/default_card_policy.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/boost/astronomy/io/default_card_policy.hpp b/include/boost/astronomy/io/default_card_policy.hpp
index e3e7955..b087477 100644
--- a/include/boost/astronomy/io/default_card_policy.hpp
+++ b/include/boost/astronomy/io/default_card_policy.hpp
@@ -130,7 +130,7 @@ public:
         auto space_pos = std::find(value.begin(), value.end(), ' ');
         if (space_pos != value.end()) {
             std::string real_part(value.begin(), space_pos);
-            std::string imag_part(space_pos + 1, value.end());
+            std::string imag_part = boost::trim_copy(std::string(space_pos + 1, value.end()));
 
             return std::complex<T>(parse_to<T>(real_part), parse_to<T>(imag_part));
         }
-- 
2.43.0


From 78d9dddd7f81cccbbbe45339c449fa669ec04c72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:04:35 +0000
Subject: [PATCH 26/35] fix: a card shorter than the value indicator is
 checked, not read past its end

---
 include/boost/astronomy/io/default_card_policy.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/boost/astronomy/io/default_card_policy.hpp b/include/boost/astronomy/io/default_card_policy.hpp
index b087477..e85e354 100644
--- a/include/boost/astronomy/io/default_card_policy.hpp
+++ b/include/boost/astronomy/io/default_card_policy.hpp
@@ -243,7 +243,7 @@ private:
      * @brief Checks whether the card follows the standard specification for cards with non reserved keywords
     */
     bool in_proper_format(const std::string& fits_card)const {
-        return fits_card.substr(8, 2) == "= ";
+        return fits_card.length() > 8 && fits_card.substr(8, 2) == "= ";
     }
 
     /**
-- 
2.43.0


From 390ba1bee572c2d79171507d671786691e6d5c5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:04:35 +0000
Subject: [PATCH 27/35] fix: set_data must drop the column views of the
 previous data

---
 include/boost/astronomy/io/ascii_table.hpp  | 1 +
 include/boost/astronomy/io/binary_table.hpp | 1 +
 2 files changed, 2 insertions(+)

diff --git a/include/boost/astronomy/io/ascii_table.hpp b/include/boost/astronomy/io/ascii_table.hpp
index 023711b..c976c72 100644
--- a/include/boost/astronomy/io/ascii_table.hpp
+++ b/include/boost/astronomy/io/ascii_table.hpp
@@ -71,6 +71,7 @@ public:
      * @param[in]  data_buffer Data of ASCII Table
     */
     void set_data(const std::string& data_buffer) {
+        this->cached_columns.clear();
         this->col_metadata_.clear();
         this->col_metadata_.resize(this->tfields_);
         set_ascii_table_info(data_buffer);
diff --git a/include/boost/astronomy/io/binary_table.hpp b/include/boost/astronomy/io/binary_table.hpp
index 4d4b9d9..6d4ab8c 100644
--- a/include/boost/astronomy/io/binary_table.hpp
+++ b/include/boost/astronomy/io/binary_table.hpp
@@ -142,6 +142,7 @@ public:
      * @param[in]  data_buffer Data of Binary Table
     */
     void set_data(const std::string& data_buffer) {
+        this->cached_columns.clear();
         this->col_metadata_.clear();
         this->col_metadata_.resize(this->tfields_);
         set_binary_table_info(data_buffer);
-- 
2.43.0


From 494f7856d77bff59f74babd4050fa5ab1bc0e544 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:05:51 +0000
Subject: [PATCH 28/35] fix: read_header must stop with an error when the file
 ends before the END card

---
 include/boost/astronomy/io/header.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/boost/astronomy/io/header.hpp b/include/boost/astronomy/io/header.hpp
index 76dcb7e..7b4523f 100644
--- a/include/boost/astronomy/io/header.hpp
+++ b/include/boost/astronomy/io/header.hpp
@@ -77,6 +77,10 @@ public:
         //reading file card by card until END card is found
         while (true)
         {
+            if (file_reader.at_end()) {
+                throw file_reading_exception("END card not found");
+            }
+
             //read from file and create push card into the vector
             card_buffer = file_reader.read(80);
             cards.emplace_back(card_buffer);
-- 
2.43.0


From a0884f4834e3833b9340d29080588f744243e9d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:05:51 +0000
Subject: [PATCH 29/35] fix: ASCII table rows are written with every field at
 its TBCOL column

---
 include/boost/astronomy/io/ascii_table.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/boost/astronomy/io/ascii_table.hpp b/include/boost/astronomy/io/ascii_table.hpp
index c976c72..70c7581 100644
--- a/include/boost/astronomy/io/ascii_table.hpp
+++ b/include/boost/astronomy/io/ascii_table.hpp
@@ -148,12 +148,12 @@ public:
 
         for (int row = 0; row < this->tb_data.size(); row++) {
 
-            std::string row_temp_buffer = "";
+            std::string row_temp_buffer(this->hdu_header.naxis(1), ' ');
 
             for (int col = 0; col < this->tb_data[row].size(); col++) {
                 std::string padding = std::string(this->column_size(this->col_metadata_[col].TFORM())-this->tb_data[row][col].length(),' ');
                 std::string final_data = padding + this->tb_data[row][col];
-                row_temp_buffer += final_data;
+                row_temp_buffer.replace(this->col_metadata_[col].TBCOL() - 1, final_data.length(), final_data);
             }
             file_writer.write(row_temp_buffer);
         }
-- 
2.43.0


From 0476460e45a8cdb285e5e4f85574c3b77b939034 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:05:51 +0000
Subject: [PATCH 30/35] fix: a bit field of n bits takes (n + 7) / 8 bytes

---
 include/boost/astronomy/io/binary_table.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/boost/astronomy/io/binary_table.hpp b/include/boost/astronomy/io/binary_table.hpp
index 6d4ab8c..da5e535 100644
--- a/include/boost/astronomy/io/binary_table.hpp
+++ b/include/boost/astronomy/io/binary_table.hpp
@@ -159,6 +159,9 @@ public:
                             return c == '\'' || c == ' ';
                         });
         auto no_of_elements = element_count(form);
+        if (get_type(form) == 'X') {
+            return (no_of_elements + 7) / 8;
+        }
         auto size_type = type_size(get_type(form));
         return no_of_elements * size_type;
     }
-- 
2.43.0


From 65bd3465c6aba6850e693aaeee67b5125edac720 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:05:51 +0000
Subject: [PATCH 31/35] fix: a copied table must not edit the table it was
 copied from

---
 include/boost/astronomy/io/ascii_table.hpp  | 16 ++++++++++++++++
 include/boost/astronomy/io/binary_table.hpp | 16 ++++++++++++++++
 2 files changed, 32 insertions(+)

diff --git a/include/boost/astronomy/io/ascii_table.hpp b/include/boost/astronomy/io/ascii_table.hpp
index 70c7581..23fbe91 100644
--- a/include/boost/astronomy/io/ascii_table.hpp
+++ b/include/boost/astronomy/io/ascii_table.hpp
@@ -57,6 +57,22 @@ public:
     */
     basic_ascii_table() {}
 
+    /**
+     * @brief      Copies a table, the column views of the other table stay with that table
+     * @param[in]  other Table to copy
+    */
+    basic_ascii_table(basic_ascii_table const& other) : table_extension<CardPolicy>(other) {}
+
+    /**
+     * @brief      Copies a table, the column views of the other table stay with that table
+     * @param[in]  other Table to copy
+    */
+    basic_ascii_table& operator=(basic_ascii_table const& other) {
+        table_extension<CardPolicy>::operator=(other);
+        this->cached_columns.clear();
+        return *this;
+    }
+
     /**
      * @brief      Constructs an ASCII Table object from header and data buffer
      * @param[in]  other Header part of ASCII table
diff --git a/include/boost/astronomy/io/binary_table.hpp b/include/boost/astronomy/io/binary_table.hpp
index da5e535..a3d795d 100644
--- a/include/boost/astronomy/io/binary_table.hpp
+++ b/include/boost/astronomy/io/binary_table.hpp
@@ -79,6 +79,22 @@ public:
     */
     basic_binary_table_extension() {}
 
+    /**
+     * @brief      Copies a table, the column views of the other table stay with that table
+     * @param[in]  other Table to copy
+    */
+    basic_binary_table_extension(basic_binary_table_extension const& other) : table_extension<CardPolicy>(other) {}
+
+    /**
+     * @brief      Copies a table, the column views of the other table stay with that table
+     * @param[in]  other Table to copy
+    */
+    basic_binary_table_extension& operator=(basic_binary_table_extension const& other) {
+        table_extension<CardPolicy>::operator=(other);
+        this->cached_columns.clear();
+        return *this;
+    }
+
     
     /**
     * @brief      Constructs an Binary Table object from header and data buffer
-- 
2.43.0


From 5ca7eba6e41c966142783f447d551be5d5140b46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:59:54 +0000
Subject: [PATCH 32/35] fix: fits_io::initialize forgets the HDUs of the
 previous file

---
 include/boost/astronomy/io/fits_reader.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/boost/astronomy/io/fits_reader.hpp b/include/boost/astronomy/io/fits_reader.hpp
index 67b9d43..896b419 100644
--- a/include/boost/astronomy/io/fits_reader.hpp
+++ b/include/boost/astronomy/io/fits_reader.hpp
@@ -80,6 +80,7 @@ namespace boost { namespace astronomy { namespace io {
         */
         void initialize(const std::string& filepath) {
             file_reader.set_file(filepath);
+            hdu_list.clear();
             hdus_control_block.clear();
             hdus_control_block.filepath = filepath;
         }
-- 
2.43.0


From 430a1c2f03bf6eda91f207b44d868ff25881a254 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:59:54 +0000
Subject: [PATCH 33/35] fix: EXTNAME and EXTEND are optional keywords

---
 include/boost/astronomy/io/extension_hdu.hpp | 4 +++-
 include/boost/astronomy/io/primary_hdu.hpp   | 2 +-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/boost/astronomy/io/extension_hdu.hpp b/include/boost/astronomy/io/extension_hdu.hpp
index a2f59f9..fdd631d 100644
--- a/include/boost/astronomy/io/extension_hdu.hpp
+++ b/include/boost/astronomy/io/extension_hdu.hpp
@@ -58,7 +58,9 @@ private:
     void set_extension_info() {
         gcount = hdu_header.template value_of<int>("GCOUNT");
         pcount = hdu_header.template value_of<int>("PCOUNT");
-        extname = hdu_header.template value_of<std::string>("EXTNAME");
+        if (hdu_header.contains_keyword("EXTNAME")) { // optional keyword
+            extname = hdu_header.template value_of<std::string>("EXTNAME");
+        }
     }
 };
 
diff --git a/include/boost/astronomy/io/primary_hdu.hpp b/include/boost/astronomy/io/primary_hdu.hpp
index de5da45..ece8344 100644
--- a/include/boost/astronomy/io/primary_hdu.hpp
+++ b/include/boost/astronomy/io/primary_hdu.hpp
@@ -125,7 +125,7 @@ private:
     void init_primary_hdu() {
 
         simple = hdu_header.template value_of<bool>("SIMPLE");
-        extend = hdu_header.template value_of<bool>("EXTEND");
+        extend = hdu_header.contains_keyword("EXTEND") && hdu_header.template value_of<bool>("EXTEND"); // optional keyword
     }
 
     /**
-- 
2.43.0


From bfe796a54c164d92aec5eb7490e508873bb0f9c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:00:24 +0000
Subject: [PATCH 34/35] fix: fits_io::write_to reports a file that cannot be
 created

---
 include/boost/astronomy/exception/fits_exception.hpp | 9 +++++++++
 include/boost/astronomy/io/fits_reader.hpp           | 4 +++-
 2 files changed, 12 insertions(+), 1 deletion(-)

diff --git a/include/boost/astronomy/exception/fits_exception.hpp b/include/boost/astronomy/exception/fits_exception.hpp
index e799c9c..3abe0db 100644
--- a/include/boost/astronomy/exception/fits_exception.hpp
+++ b/include/boost/astronomy/exception/fits_exception.hpp
@@ -108,6 +108,15 @@ namespace boost
                 return message.c_str();
             }
 
+        };
+        class file_writing_exception : public fits_exception {
+            std::string message;
+        public:
+            file_writing_exception(const std::string& error_message):message(error_message) {}
+            const char* what() const noexcept override {
+                return message.c_str();
+            }
+
         };
         class column_not_found_exception : public fits_exception {
             std::string message;
diff --git a/include/boost/astronomy/io/fits_reader.hpp b/include/boost/astronomy/io/fits_reader.hpp
index 896b419..243380b 100644
--- a/include/boost/astronomy/io/fits_reader.hpp
+++ b/include/boost/astronomy/io/fits_reader.hpp
@@ -134,7 +134,9 @@ namespace boost { namespace astronomy { namespace io {
         */
         void write_to(const std::string& file_path) {
             FileReader file_writer;
-            file_writer.create_file(file_path);
+            if (!file_writer.create_file(file_path)) {
+                throw file_writing_exception("Cannot Create File");
+            }
             typename ExtensionsSupported::template writer_visitor<FileReader> writer_visitor(file_writer);
 
             for (auto& hdu : hdu_list) {
-- 
2.43.0


From f34c024bcee5514a8aa1fa7e360ab19b962ddb5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:00:24 +0000
Subject: [PATCH 35/35] fix: images know their width, which pixel access by
 position needs

---
 include/boost/astronomy/io/image.hpp          | 28 +++++++++++++++++--
 .../boost/astronomy/io/image_extension.hpp    |  2 +-
 include/boost/astronomy/io/primary_hdu.hpp    |  2 +-
 3 files changed, 27 insertions(+), 5 deletions(-)

diff --git a/include/boost/astronomy/io/image.hpp b/include/boost/astronomy/io/image.hpp
index 02ee8d3..056b117 100644
--- a/include/boost/astronomy/io/image.hpp
+++ b/include/boost/astronomy/io/image.hpp
@@ -17,6 +17,7 @@ file License.txt or copy at https://www.boost.org/LICENSE_1_0.txt)
 #include <cmath>
 #include <numeric>
 #include <valarray>
+#include <vector>
 
 #include <boost/endian/conversion.hpp>
 #include <boost/cstdfloat.hpp>
@@ -50,7 +51,7 @@ public:
     /**
      * @brief       Constructs an standalone object of image_buffer
     */
-    image_buffer() {}
+    image_buffer() : width_(0), height_(0) {}
 
     /**
      * @brief       Constructs an image_buffer object by allocating width*height space for buffer
@@ -149,6 +150,17 @@ public:
         return this->data_[(x*this->width_) + y];
     }
 
+    /**
+     * @brief       Sets the width and height of the image
+     * @param[in]   width Width of Image
+     * @param[in]   height  Height of Image
+    */
+    void set_dimensions(std::size_t width, std::size_t height)
+    {
+        this->width_ = width;
+        this->height_ = height;
+    }
+
     /**
      * @brief       Returns the size of image
     */
@@ -163,11 +175,21 @@ public:
 struct read_image_visitor :public boost::static_visitor<> {
 
     const std::string& data_buffer;
+    std::size_t width;
+    std::size_t height;
 
-    read_image_visitor(const std::string& data_buf) :data_buffer(data_buf) {}
+    /**
+     * @param[in] data_buf Data of the image
+     * @param[in] axes Lengths of the axes ( NAXIS1, NAXIS2, ... ) of the image
+    */
+    read_image_visitor(const std::string& data_buf, const std::vector<std::size_t>& axes) :data_buffer(data_buf),
+        width(axes.size() > 0 ? axes[0] : 0), height(axes.size() > 1 ? axes[1] : 1) {}
 
     template<typename Image_Type>
-    void operator()(Image_Type& type) { type.read_image(data_buffer); }
+    void operator()(Image_Type& type) {
+        type.read_image(data_buffer);
+        type.set_dimensions(width, height);
+    }
 };
 
 /**
diff --git a/include/boost/astronomy/io/image_extension.hpp b/include/boost/astronomy/io/image_extension.hpp
index 4936c9c..5b27808 100644
--- a/include/boost/astronomy/io/image_extension.hpp
+++ b/include/boost/astronomy/io/image_extension.hpp
@@ -94,7 +94,7 @@ private:
      * @param[in] data_buffer Image data in binary form from the file
     */
     void set_image_data(const std::string& data_buffer) {
-        read_image_visitor read_image_visit(data_buffer);
+        read_image_visitor read_image_visit(data_buffer, this->hdu_header.all_naxis());
         boost::apply_visitor(read_image_visit, data);
     }
 
diff --git a/include/boost/astronomy/io/primary_hdu.hpp b/include/boost/astronomy/io/primary_hdu.hpp
index ece8344..8725a76 100644
--- a/include/boost/astronomy/io/primary_hdu.hpp
+++ b/include/boost/astronomy/io/primary_hdu.hpp
@@ -59,7 +59,7 @@ public:
     basic_primary_hdu( const header<CardPolicy> & other,const std::string& data_buffer):hdu_header(other) {
 
         instantiate_primary_hdu(hdu_header.bitpix());
-        read_image_visitor read_image_visit(data_buffer);
+        read_image_visitor read_image_visit(data_buffer, hdu_header.all_naxis());
         boost::apply_visitor(read_image_visit, data);
         init_primary_hdu();
     }
-- 
2.43.0

