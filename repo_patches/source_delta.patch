From c7e15405c3a121cf3c61ce99aa02b8a731aaca5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:42 +0000
Subject: [PATCH 01/71] fix: 3d segment intersection reports an end point of
 the first segment as e_endpoint

The classification from the second segment's parameter overwrote the one from
the first, so a segment whose end point lies inside the other segment was
reported as e_crossing in one argument order and e_endpoint in the other.
---
 .../algorithm/intersection/segment_segment_intersection.hpp   | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/geometrix/algorithm/intersection/segment_segment_intersection.hpp b/geometrix/algorithm/intersection/segment_segment_intersection.hpp
index 742835b..b74a3b2 100644
--- a/geometrix/algorithm/intersection/segment_segment_intersection.hpp
+++ b/geometrix/algorithm/intersection/segment_segment_intersection.hpp
@@ -252,9 +252,7 @@ namespace geometrix {
         
                 if( cmp.less_than( t, zero ) || cmp.greater_than( t, one ) )
                     return e_non_crossing;                
-                else if( cmp.greater_than( t, zero ) && cmp.less_than( t, one ) )
-                    iType = e_crossing;
-                else
+                else if( !cmp.greater_than( t, zero ) || !cmp.less_than( t, one ) )
                     iType = e_endpoint;
         
                 iPoint[0] <<= p1 + s * v1;
-- 
2.43.0


From b60113ac7814cf175111d3fb32fd90759c6e2088 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:14 +0000
Subject: [PATCH 02/71] fix: 3d collinear segments are compared with the
 caller's tolerance

The parallel branch compared the cross product and the parameters exactly, so
overlapping collinear segments with rounded coordinates were reported as
e_non_crossing.
---
 .../intersection/segment_segment_intersection.hpp     | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/geometrix/algorithm/intersection/segment_segment_intersection.hpp b/geometrix/algorithm/intersection/segment_segment_intersection.hpp
index b74a3b2..e8216d4 100644
--- a/geometrix/algorithm/intersection/segment_segment_intersection.hpp
+++ b/geometrix/algorithm/intersection/segment_segment_intersection.hpp
@@ -261,7 +261,10 @@ namespace geometrix {
             else
             {
                 //! Parallel
-                if( !boost::fusion::all( v1 ^ (p3-p1), boost::lambda::_1 == constants::zero<length_t>() ) )
+                vector<area_t, 3> normal = v1 ^ (p3-p1);
+                if( !cmp.equals( get<0>(normal), constants::zero<area_t>() ) ||
+                    !cmp.equals( get<1>(normal), constants::zero<area_t>() ) ||
+                    !cmp.equals( get<2>(normal), constants::zero<area_t>() ) )
                     return e_non_crossing;
 
                 //! On the same line.
@@ -271,11 +274,11 @@ namespace geometrix {
                 dimensionless_t s1 = s0 + b / vLengthSqr ;
                 auto st = boost::minmax( s0, s1 ) ;
 
-                if( one < boost::get<0>(st) || zero > boost::get<1>(st) )
+                if( cmp.less_than( one, boost::get<0>(st) ) || cmp.greater_than( zero, boost::get<1>(st) ) )
                     return e_non_crossing;
-                else if( 1. > boost::get<0>(st) )
+                else if( cmp.greater_than( one, boost::get<0>(st) ) )
                 {
-                    if( 0. < boost::get<1>(st) )
+                    if( cmp.less_than( zero, boost::get<1>(st) ) )
                     {
                         if( 0. < boost::get<0>(st) )
                             iPoint[0] <<= p1 + boost::get<0>(st) * v1;
-- 
2.43.0


From 1aa847198d8a02e64069d2f060b044d5044f1e2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:14 +0000
Subject: [PATCH 03/71] fix: ray_segment_intersection without points reports a
 parallel segment beside the ray

The parallel branch compared the two directions, which are always collinear
there, instead of testing whether the origin lies on the segment's line.
---
 geometrix/algorithm/intersection/ray_segment_intersection.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geometrix/algorithm/intersection/ray_segment_intersection.hpp b/geometrix/algorithm/intersection/ray_segment_intersection.hpp
index 259b0b2..7e823df 100644
--- a/geometrix/algorithm/intersection/ray_segment_intersection.hpp
+++ b/geometrix/algorithm/intersection/ray_segment_intersection.hpp
@@ -150,7 +150,7 @@ inline intersection_type ray_segment_intersection(const Point& O, const UnitVect
     //If denom is zero then ray and segment are parallel.
     if (cmp.equals(denom, constants::zero<decltype(denom)>()))
     {
-        if (get_orientation(v, v2, cmp) != oriented_collinear)
+        if (get_orientation(A, B, O, cmp) != oriented_collinear)
             return e_non_crossing;
 
         vector_t vOB = B - O;
-- 
2.43.0


From c082e13ba61e6e48112861e58966d45aaec883f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:57 +0000
Subject: [PATCH 04/71] fix: ray_line_intersection treats the line as unbounded
 and parallel rays by position

The line was cut at its reference point, parallel rays beside the line were
reported as lying on it, and the overlap flag used an unrelated enumerator.
---
 .../algorithm/intersection/ray_line_intersection.hpp      | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/geometrix/algorithm/intersection/ray_line_intersection.hpp b/geometrix/algorithm/intersection/ray_line_intersection.hpp
index 27364f8..cb51dd2 100644
--- a/geometrix/algorithm/intersection/ray_line_intersection.hpp
+++ b/geometrix/algorithm/intersection/ray_line_intersection.hpp
@@ -31,7 +31,7 @@ namespace geometrix {
         ray_line_intersection_result() = default;
 
         ray_line_intersection_result(bool isIntersecting, bool isOverlapping = false)
-        : result(((isIntersecting || isOverlapping) ? e_is_intersecting : 0) | (isOverlapping ? e_overlapping : 0))
+        : result(((isIntersecting || isOverlapping) ? e_is_intersecting : 0) | (isOverlapping ? e_is_overlapping : 0))
         {}
 
         bool is_intersecting() const { return (result & e_is_intersecting) != 0; }
@@ -82,7 +82,7 @@ namespace geometrix {
         //If denom is zero then ray and line are parallel.
         if( cmp.equals( denom, constants::zero<length_t>() ) )
         {
-            if (get_orientation(v, v2, cmp) != oriented_collinear)
+            if (get_orientation(v2, v1, cmp) != oriented_collinear)
             return false;
 
             return ray_line_intersection_result(true,true);
@@ -91,10 +91,6 @@ namespace geometrix {
         t = exterior_product_area(v2, v1) / denom;
         if (cmp.less_than(t, constants::zero<Length>()))
         return false;
-        
-        auto t2 = scalar_projection(v1, v3) / denom;
-        if (cmp.less_than(t2, constants::zero<decltype(t2)>()))
-        return false;
 
         assign(xPoint, O + t * v);
 
-- 
2.43.0


From 84321552afe5124aadcec806368a98b07c2b5424 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:04 +0000
Subject: [PATCH 05/71] fix: collinear segments that share only an end point
 are e_endpoint, not e_overlapping

The end point tests came after the overlap tests, which use inclusive bounds
and so always matched first; a straight polyline was reported as overlapping
itself at every interior vertex.
---
 .../segment_segment_intersection.hpp          | 82 +++++++++----------
 1 file changed, 41 insertions(+), 41 deletions(-)

diff --git a/geometrix/algorithm/intersection/segment_segment_intersection.hpp b/geometrix/algorithm/intersection/segment_segment_intersection.hpp
index e8216d4..121b635 100644
--- a/geometrix/algorithm/intersection/segment_segment_intersection.hpp
+++ b/geometrix/algorithm/intersection/segment_segment_intersection.hpp
@@ -55,91 +55,91 @@ namespace geometrix {
                 return e_overlapping;
             }
 
-            if( CisBetweenAB && BisBetweenCD )
+            bool originEqualsC = numeric_sequence_equals( A, C, cmp );
+            bool destinationEqualsD = numeric_sequence_equals( B, D, cmp );
+            bool originEqualsD = numeric_sequence_equals( A, D, cmp );
+            bool destinationEqualsC = numeric_sequence_equals( B, C, cmp );
+            if( (originEqualsC && destinationEqualsD) || (originEqualsD && destinationEqualsC) )
             {
                 if(xPoint)
                 {
-                    xPoint[0] = C;
+                    xPoint[0] = A;
                     xPoint[1] = B;
                 }
 
                 return e_overlapping;
             }
 
-            if( CisBetweenAB && AisBetweenCD )
+            if(originEqualsC)
             {
                 if(xPoint)
-                {
-                    xPoint[0] = C;
-                    xPoint[1] = A;
-                }
+                    xPoint[0] = A;
+                return e_endpoint;
+            }
 
-                return e_overlapping;
+            if(originEqualsD)
+            {
+                if(xPoint)
+                    xPoint[0] = A;
+                return e_endpoint;
             }
 
-            if( DisBetweenAB && BisBetweenCD )
+            if(destinationEqualsC)
+            {
+                if(xPoint)
+                    xPoint[0] = B;
+                return e_endpoint;
+            }
+
+            if(destinationEqualsD)
+            {
+                if(xPoint)
+                    xPoint[0] = B;
+                return e_endpoint;
+            }
+
+            if( CisBetweenAB && BisBetweenCD )
             {
                 if(xPoint)
                 {
-                    xPoint[0] = D;
+                    xPoint[0] = C;
                     xPoint[1] = B;
                 }
 
                 return e_overlapping;
             }
 
-            if( DisBetweenAB && AisBetweenCD )
+            if( CisBetweenAB && AisBetweenCD )
             {
                 if(xPoint)
                 {
-                    xPoint[0] = D;
+                    xPoint[0] = C;
                     xPoint[1] = A;
                 }
 
                 return e_overlapping;
             }
 
-            bool originEqualsC = numeric_sequence_equals( A, C, cmp );
-            bool destinationEqualsD = numeric_sequence_equals( B, D, cmp );
-            bool originEqualsD = numeric_sequence_equals( A, D, cmp );
-            bool destinationEqualsC = numeric_sequence_equals( B, C, cmp );
-            if( (originEqualsC && destinationEqualsD) || (originEqualsD && destinationEqualsC) )
+            if( DisBetweenAB && BisBetweenCD )
             {
                 if(xPoint)
                 {
-                    xPoint[0] = A;
+                    xPoint[0] = D;
                     xPoint[1] = B;
                 }
 
                 return e_overlapping;
             }
 
-            if(originEqualsC)
-            {
-                if(xPoint)
-                    xPoint[0] = A;
-                return e_endpoint;
-            }
-
-            if(originEqualsD)
-            {
-                if(xPoint)
-                    xPoint[0] = A;
-                return e_endpoint;
-            }
-
-            if(destinationEqualsC)
+            if( DisBetweenAB && AisBetweenCD )
             {
                 if(xPoint)
-                    xPoint[0] = B;
-                return e_endpoint;
-            }
+                {
+                    xPoint[0] = D;
+                    xPoint[1] = A;
+                }
 
-            if(destinationEqualsD)
-            {
-                if(xPoint)
-                    xPoint[0] = B;
-                return e_endpoint;
+                return e_overlapping;
             }
 
             return e_non_crossing;
-- 
2.43.0


From 9526487577a55cdad1fab2e1942d0356ee810bf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:32 +0000
Subject: [PATCH 06/71] fix: polygon simplicity tests accept adjacent edges
 that overlap

---
 .../algorithm/point_sequence/is_polygon_simple.hpp | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/geometrix/algorithm/point_sequence/is_polygon_simple.hpp b/geometrix/algorithm/point_sequence/is_polygon_simple.hpp
index 0d35897..918a0cc 100644
--- a/geometrix/algorithm/point_sequence/is_polygon_simple.hpp
+++ b/geometrix/algorithm/point_sequence/is_polygon_simple.hpp
@@ -58,6 +58,9 @@ namespace geometrix {
 		std::size_t size = access::size( poly );
 		auto next = [size]( std::size_t i ){ return (i + 1) % size; };
 		for( std::size_t i = size - 1, j = 0; j < size; i = j++ ){
+			//! Adjacent edges always share a vertex, but must not overlap.
+			if( segment_segment_intersection( access::get_point( poly, i ), access::get_point( poly, j ), access::get_point( poly, j ), access::get_point( poly, next( j ) ), (point_type*)nullptr, cmp ) == e_overlapping )
+				return false;
 			for( std::size_t k = next( j ), l = next( k ); l != i; k = l, l = next( l ) ){
 				if( is_intersecting(i,j,k,l) )
 					return false;				
@@ -78,15 +81,16 @@ namespace geometrix {
 
 		auto next = [size]( std::size_t i ){ return (i + 1) % size; };
 		auto adjacent = [&next](std::size_t i, std::size_t j) { return next(i) == j || next(j) == i; };
-		auto is_intersecting = [&poly, &next, &cmp]( std::size_t i, std::size_t j ) -> bool
+		auto is_intersecting = [&poly, &next, &adjacent, &cmp]( std::size_t i, std::size_t j ) -> bool
 		{
 			auto iType = segment_segment_intersection( access::get_point( poly, i ), access::get_point( poly, next(i) ), access::get_point( poly, j ), access::get_point( poly, next(j) ), (point_type*)nullptr, cmp );
-			return iType != e_non_crossing;
+			//! Adjacent edges always share a vertex, but must not overlap.
+			return adjacent( i, j ) ? iType == e_overlapping : iType != e_non_crossing;
 		};
 		
-		for( std::size_t i = 0; i < size - 2; ++i )
-			for( std::size_t j = i + 2; j < size; ++j )
-				if( is_intersecting( i, j ) && !adjacent(i,j) )
+		for( std::size_t i = 0; i < size - 1; ++i )
+			for( std::size_t j = i + 1; j < size; ++j )
+				if( is_intersecting( i, j ) )
 					return false;
 			
 		return true;
-- 
2.43.0


From 10144ffd32b3dcd77a65473cd405d895380aa567 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:29 +0000
Subject: [PATCH 07/71] fix: oriented_intersection misses contacts of the first
 segment's ends and overlaps that share an end

---
 geometrix/algorithm/orientation.hpp | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/geometrix/algorithm/orientation.hpp b/geometrix/algorithm/orientation.hpp
index 9f640a6..7a183cf 100644
--- a/geometrix/algorithm/orientation.hpp
+++ b/geometrix/algorithm/orientation.hpp
@@ -105,16 +105,21 @@ namespace geometrix {
             if( (originEqualsp3 && destinationEqualsp4) || (originEqualsp4 && destinationEqualsp3) )
                 return e_overlapping;
 
+            //! Segments which share one end point overlap if the other end point of either lies on the other segment.
             if(originEqualsp3)
-                return e_endpoint;
+                return p2isBetweenp3p4 || p4isBetweenp1p2 ? e_overlapping : e_endpoint;
 
             if(originEqualsp4)
-                return e_endpoint;
+                return p2isBetweenp3p4 || p3isBetweenp1p2 ? e_overlapping : e_endpoint;
 
             if(destinationEqualsp3)
-                return e_endpoint;
+                return p1isBetweenp3p4 || p4isBetweenp1p2 ? e_overlapping : e_endpoint;
 
             if(destinationEqualsp4)
+                return p1isBetweenp3p4 || p3isBetweenp1p2 ? e_overlapping : e_endpoint;
+
+            //! An end point of the first segment touches the interior of the second.
+            if(p1isBetweenp3p4 || p2isBetweenp3p4)
                 return e_endpoint;
 		}
 
-- 
2.43.0


From 40ea6b93ef8698a84ca0c12b89077e224599c85c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:42 +0000
Subject: [PATCH 08/71] fix: lexicographical_segment_compare reads the first
 segment's end from the second segment

---
 geometrix/utility/utilities.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geometrix/utility/utilities.hpp b/geometrix/utility/utilities.hpp
index 6f7be0a..7cfa733 100644
--- a/geometrix/utility/utilities.hpp
+++ b/geometrix/utility/utilities.hpp
@@ -481,7 +481,7 @@ namespace geometrix {
             typedef typename geometric_traits< Segment >::point_type point_type;
 
             const point_type& start1 = get_start( s1 );
-            const point_type& end1   = get_end( s2 );
+            const point_type& end1   = get_end( s1 );
             const point_type& start2 = get_start( s2 );
             const point_type& end2   = get_end( s2 );
 
-- 
2.43.0


From d104e9fb5cab8cb3a12749a9b257507e38cfd55a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:42 +0000
Subject: [PATCH 09/71] fix: pseudo_angle is negative for a vector along -x
 with a negative zero y

---
 geometrix/utility/vector_angle_compare.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geometrix/utility/vector_angle_compare.hpp b/geometrix/utility/vector_angle_compare.hpp
index 7c555cb..0e44923 100644
--- a/geometrix/utility/vector_angle_compare.hpp
+++ b/geometrix/utility/vector_angle_compare.hpp
@@ -28,7 +28,7 @@ namespace geometrix {
         using std::abs;
         using std::copysign;
         auto result = copysign(1.0 - get<0>(v) / (abs(get<0>(v))+abs(get<1>(v))), get<1>(v));
-        return (get<1>(v) < 0) ? 4 + result : result;
+        return (result < 0) ? 4 + result : result;
     }
 
     template <typename NumberComparisonPolicy>
-- 
2.43.0


From 5e9f630d5e931e7df36c6d875743a1942338fb2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:10 +0000
Subject: [PATCH 10/71] fix: 3d point_in_triangle does not compile and accepts
 points on a side's line beyond its end

---
 geometrix/algorithm/point_in_polygon.hpp | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/geometrix/algorithm/point_in_polygon.hpp b/geometrix/algorithm/point_in_polygon.hpp
index 76889d3..41d4557 100644
--- a/geometrix/algorithm/point_in_polygon.hpp
+++ b/geometrix/algorithm/point_in_polygon.hpp
@@ -201,6 +201,7 @@ namespace geometrix {
         inline bool point_in_triangle( const Point1& p, const Point2& A, const Point3& B, const Point4& C, const NumberComparisonPolicy& cmp, dimension<3> )
         {
             typedef typename select_arithmetic_type_from_sequences<Point1, Point2>::type arithmetic_type;
+            using area_type = decltype(std::declval<arithmetic_type>() * std::declval<arithmetic_type>());
 
             // Translate point and triangle so that point lies at origin
             vector<arithmetic_type, 3> a = A - p;
@@ -208,20 +209,24 @@ namespace geometrix {
             vector<arithmetic_type, 3> c = C - p;
 
             // Compute normal vectors for triangles pab and pbc
-            auto u = cross_product( b, c );
-            auto v = cross_product( c, a );
+            vector<area_type, 3> u = b ^ c;
+            vector<area_type, 3> v = c ^ a;
 
             // Make sure they are both pointing in the same direction
             if( cmp.less_than(dot_product(u, v), constants::zero<decltype(dot_product(u,v))>() ) )
                 return false;
 
             // Compute normal vector for triangle pca
-            auto w = cross_product(a, b);
+            vector<area_type, 3> w = a ^ b;
 
             // Make sure it points in the same direction as the first two
             if( cmp.less_than(dot_product(u, w), constants::zero<decltype(dot_product(u,w))>() ) )
                 return false;
 
+            // The first normal vanishes when P is on the line through BC; the other two must agree as well
+            if( cmp.less_than(dot_product(v, w), constants::zero<decltype(dot_product(v,w))>() ) )
+                return false;
+
             // Otherwise P must be in (or on) the triangle
             return true;
         }
-- 
2.43.0


From 0dbc5f959f07834674db76e00120f04cbe375ace Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:07 +0000
Subject: [PATCH 11/71] fix: segment_polygon_intersection does not compile

---
 .../algorithm/intersection/segment_polygon_intersection.hpp   | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/geometrix/algorithm/intersection/segment_polygon_intersection.hpp b/geometrix/algorithm/intersection/segment_polygon_intersection.hpp
index 1da3270..41702b3 100644
--- a/geometrix/algorithm/intersection/segment_polygon_intersection.hpp
+++ b/geometrix/algorithm/intersection/segment_polygon_intersection.hpp
@@ -57,14 +57,14 @@ namespace geometrix {
                 if (nextIT != intersections.end())
                 {
                     auto test = construct<Segment>(*it, *nextIT);
-                    if (point_polygon_containment_or_on_border(segment_mid_point(test), poly, cmp))
+                    if (point_polygon_containment_or_on_border(segment_mid_point(test), poly, cmp) != polygon_containment::exterior)
                         visitor(test);
                 }
             }
 
             return true;
         }
-        else if (startInside && endInside && point_polygon_containment_or_on_border(segment_mid_point(seg), poly, cmp))
+        else if (startInside && endInside && point_polygon_containment_or_on_border(segment_mid_point(seg), poly, cmp) != polygon_containment::exterior)
         {
             visitor(seg);
             return true;
-- 
2.43.0


From 92f70c7b27299ddd3cd853fd0adc2b5a9b5fd709 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:08 +0000
Subject: [PATCH 12/71] fix: polyline_polyline_intersect stops at the first
 segment that intersects

---
 .../intersection/polyline_polyline_intersection.hpp         | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/geometrix/algorithm/intersection/polyline_polyline_intersection.hpp b/geometrix/algorithm/intersection/polyline_polyline_intersection.hpp
index 3a3e344..71516b5 100644
--- a/geometrix/algorithm/intersection/polyline_polyline_intersection.hpp
+++ b/geometrix/algorithm/intersection/polyline_polyline_intersection.hpp
@@ -37,6 +37,7 @@ inline bool polyline_polyline_intersect( const Polyline1& A, const Polyline2& B,
 	using point_type = point<length_t, 2>;
 	
 	bool intersected = false;
+	bool stop = false;
 	for (std::size_t i1 = 0, j1 = 1; j1 < access1::size(A); i1 = j1++)
 	{
 		auto iVisitor = [&](intersection_type iType, std::size_t i, std::size_t j, const point_type& x1, const point_type& x2) -> bool
@@ -46,10 +47,11 @@ inline bool polyline_polyline_intersect( const Polyline1& A, const Polyline2& B,
 			
 			intersected = true;
 	
-			return visitor(iType, i1, j1, i, j, x1, x2);
+			stop = visitor(iType, i1, j1, i, j, x1, x2);
+			return stop;
 		};
 
-		bool stop = segment_polyline_intersect(access1::get_point(A, i1), access1::get_point(A, j1), B, iVisitor, cmp);
+		segment_polyline_intersect(access1::get_point(A, i1), access1::get_point(A, j1), B, iVisitor, cmp);
 		if (stop)
 			return intersected;
 	}
-- 
2.43.0


From 8b75817ed198b8f954b4b7e0afcf290536904d8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:56 +0000
Subject: [PATCH 13/71] fix: polygon_with_holes empties the polygon passed to
 add_hole and set_outer as an lvalue

---
 geometrix/primitive/polygon_with_holes.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/geometrix/primitive/polygon_with_holes.hpp b/geometrix/primitive/polygon_with_holes.hpp
index a69bb53..4c75387 100644
--- a/geometrix/primitive/polygon_with_holes.hpp
+++ b/geometrix/primitive/polygon_with_holes.hpp
@@ -94,7 +94,7 @@ namespace geometrix {
         template <typename OuterPolygon>
         void set_outer(OuterPolygon&& outer)
         {
-            m_outer = std::move(outer);
+            m_outer = std::forward<OuterPolygon>(outer);
         }
 
         template <typename OuterPolygon>
@@ -116,7 +116,7 @@ namespace geometrix {
         template <typename HolePolygon>
         void add_hole(HolePolygon&& outer)
         {
-            m_holes.emplace_back(std::move(outer));
+            m_holes.emplace_back(std::forward<HolePolygon>(outer));
         }
 
         template <typename HolePolygon>
-- 
2.43.0


From bfe97cad219e7580b4bd44ef08122d18a13a924a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:45 +0000
Subject: [PATCH 14/71] fix: convex_polygon_polygon_intersection asserts on
 touching polygons and visits the wrong number of contained vertices

---
 .../intersection/convex_polygon_polygon_intersection.hpp     | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/geometrix/algorithm/intersection/convex_polygon_polygon_intersection.hpp b/geometrix/algorithm/intersection/convex_polygon_polygon_intersection.hpp
index ded477f..8a005c7 100644
--- a/geometrix/algorithm/intersection/convex_polygon_polygon_intersection.hpp
+++ b/geometrix/algorithm/intersection/convex_polygon_polygon_intersection.hpp
@@ -154,13 +154,12 @@ namespace geometrix {
             }
         } while((aa < n || ba < m) && aa < n2 && ba < m2);
 
-        if (inflag == unknown) 
+        if (inflag == unknown && nVisited == 0)
         {
-            GEOMETRIX_ASSERT(nVisited == 0);
             //! Check if one vertex of either is inside.
             if (point_in_polygon(get_point1(0), pgon2)) 
             {
-                for (auto i = 0ULL; i < m; ++i)
+                for (auto i = 0ULL; i < n; ++i)
                     visitor(get_point1(i));
                 return polygon_intersection_type::overlapping;
             }
-- 
2.43.0


From c9ff08a15b7458d0118890ae6312bee02ba66252 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:45 +0000
Subject: [PATCH 15/71] fix: convex_polygon_polygon_intersection misses
 vertices when the first contact does not tell which polygon is inside

---
 .../intersection/convex_polygon_polygon_intersection.hpp       | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/geometrix/algorithm/intersection/convex_polygon_polygon_intersection.hpp b/geometrix/algorithm/intersection/convex_polygon_polygon_intersection.hpp
index 8a005c7..c498ed1 100644
--- a/geometrix/algorithm/intersection/convex_polygon_polygon_intersection.hpp
+++ b/geometrix/algorithm/intersection/convex_polygon_polygon_intersection.hpp
@@ -86,7 +86,8 @@ namespace geometrix {
                 visitor(xpoints[0]);
                 ++nVisited;
 
-                if (inflag == unknown && nVisited == 1)
+                //! Go around once more from the first contact, and from where it is first known which polygon is inside.
+                if (inflag == unknown && (nVisited == 1 || aHB == oriented_left || bHA == oriented_left))
                     aa = ba = 0;
                 if (aHB == oriented_left)
                     inflag = pgon1_in;
-- 
2.43.0


From 7fccadd279915fff4037d4a4c716042600af5f62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:01 +0000
Subject: [PATCH 16/71] fix: is_segment_in_range_2d reports a segment behind
 the cone whose ends are on the backward extensions of the range vectors

---
 geometrix/algorithm/is_segment_in_range.hpp | 8 --------
 1 file changed, 8 deletions(-)

diff --git a/geometrix/algorithm/is_segment_in_range.hpp b/geometrix/algorithm/is_segment_in_range.hpp
index e01b34b..a4cfab4 100644
--- a/geometrix/algorithm/is_segment_in_range.hpp
+++ b/geometrix/algorithm/is_segment_in_range.hpp
@@ -72,14 +72,6 @@ namespace geometrix {
 */
 
 		direct_comparison_policy directCmp;
-		//! Special case where both segment endpoints lay on a range vector.
-		//! In that case the segment either is inside the range or outside.
-		if( detHiSegStart == constants::zero<area_t>() && detLoSegEnd == constants::zero<area_t>())
-			return get_orientation( get_start(segment), get_end(segment), origin, directCmp) != oriented_left;
-		
-		if( detHiSegEnd == constants::zero<area_t>() && detLoSegStart == constants::zero<area_t>())
-			return get_orientation( get_start(segment), get_end(segment), origin, directCmp) != oriented_right;
-		
 		//! Test the intersections		
 		return ray_segment_intersection(origin, normalize(lo), segment, directCmp) != e_non_crossing || ray_segment_intersection(origin, normalize(hi), segment, directCmp) != e_non_crossing;
 	}
-- 
2.43.0


From e93219ebbb20f778a665cdc86a248f62c15776bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:31 +0000
Subject: [PATCH 17/71] fix: is_segment_in_range_2d with points misses segments
 starting on the cone and clips by lines instead of rays

---
 geometrix/algorithm/is_segment_in_range.hpp | 110 ++++----------------
 1 file changed, 21 insertions(+), 89 deletions(-)

diff --git a/geometrix/algorithm/is_segment_in_range.hpp b/geometrix/algorithm/is_segment_in_range.hpp
index a4cfab4..d1768b0 100644
--- a/geometrix/algorithm/is_segment_in_range.hpp
+++ b/geometrix/algorithm/is_segment_in_range.hpp
@@ -98,99 +98,31 @@ namespace geometrix {
 		const auto detLoSegEnd = exterior_product_area( lo, vSegEnd );
 		const auto detHiSegEnd = exterior_product_area( hi, vSegEnd );
 
-		//! Are either points inside the range
-		bool startIn = detLoSegStart >= constants::zero<area_t>() && detHiSegStart <= constants::zero<area_t>();
-		bool endIn = detLoSegEnd >= constants::zero<area_t>() && detHiSegEnd <= constants::zero<area_t>();
-
-		//! If both are inside... done.
-		if( startIn && endIn )
-		{
-			xPoints[0] = get_start( segment );
-			xPoints[1] = get_end( segment );
-			return true;
-		}
-
-		if( startIn != endIn )
+		//! Clip the segment by the half plane left of lo and the half plane right of hi.
+		using dimensionless_t = decltype(detLoSegStart / detLoSegStart);
+		dimensionless_t t0 = constants::zero<dimensionless_t>(), t1 = constants::one<dimensionless_t>();
+		auto clip = [&t0, &t1](const area_t& dStart, const area_t& dEnd) -> bool
 		{
-			Point xPointLo, xPointHi;
-			intersection_type loIType = line_segment_intersect( origin, origin + lo, segment, xPointLo, cmp );			
-			if( loIType == e_crossing )
-			{
-				xPoints[0] = xPointLo;
-				xPoints[1] = startIn ? get_start( segment ) : get_end( segment );
-				return true;
-			}
-			else if( loIType == e_overlapping )
-			{
-				xPoints[0] = get_start( segment );
-				xPoints[1] = get_start( segment );
+			bool startIn = dStart >= constants::zero<area_t>(), endIn = dEnd >= constants::zero<area_t>();
+			if( startIn && endIn )
 				return true;
-			}
-
-			intersection_type hiIType = line_segment_intersect( origin, origin + hi, segment, xPointHi, cmp );
-			if( (hiIType == e_crossing || hiIType == e_endpoint) )
-			{
-				if( loIType == e_endpoint )
-					xPoints[0] = xPointLo;
-				else
-					xPoints[0] = startIn ? get_start( segment ) : get_end( segment );
-				xPoints[1] = xPointHi;				
-				return true;
-			}
-			else if( hiIType == e_overlapping )
-			{
-				xPoints[0] = get_start( segment );
-				xPoints[1] = get_start( segment );
-				return true;
-			}
-
-			return false;
-		}
-
-		//! Are both points outside the range?
-		const auto dotHiSegStart = dot_product( hi, vSegStart );
-		const auto dotLoSegEnd = dot_product( lo, vSegEnd );
-		const auto dotLoSegStart = dot_product( lo, vSegStart );
-		const auto dotHiSegEnd = dot_product( hi, vSegEnd );
+			if( !startIn && !endIn )
+				return false;
+			dimensionless_t t = dStart / (dStart - dEnd);
+			if( startIn )
+				t1 = (std::min)(t1, t);
+			else
+				t0 = (std::max)(t0, t);
+			return true;
+		};
 
-		//! Check if start is outside of the hi end and end is outside the lo end.
-		//! or check if end is outside the hi end and start is outside the lo end.
-		if( ( detHiSegStart >= constants::zero<area_t>() && detLoSegEnd < constants::zero<area_t>() && dotHiSegStart > constants::zero<area_t>() && dotLoSegEnd > constants::zero<area_t>() ) ||
-			( detHiSegEnd >= constants::zero<area_t>() && detLoSegStart < constants::zero<area_t>() && dotHiSegEnd > constants::zero<area_t>() && dotLoSegStart > constants::zero<area_t>() ) )
-		{
-			//! Crosses both in this case.
-			Point xPointLo[2], xPointHi[2];
-			length_t t;
-			intersection_type loIType = ray_segment_intersection( origin, normalize(lo), segment, t, xPointLo, cmp );
-			intersection_type hiIType = ray_segment_intersection( origin, normalize(hi), segment, t, xPointHi, cmp );
-			if( (loIType == e_crossing || loIType == e_endpoint) && (hiIType == e_crossing || hiIType == e_endpoint) )
-			{
-				xPoints[0] = xPointLo[0];
-				xPoints[1] = xPointHi[0];
-				return true;
-			}
-			else if( loIType == e_overlapping || hiIType == e_overlapping )
-			{
-				xPoints[0] = get_start( segment );
-				xPoints[1] = get_start( segment );
-				return true;
-			}
-		}
-		else 
-		{
-			//! Special case where both segment endpoints lay on a range vector.
-			//! In that case the segment either is inside the range or outside.
-			if ((detHiSegStart == constants::zero<area_t>() && detLoSegEnd == constants::zero<area_t>() && get_orientation(get_start(segment), get_end(segment), origin, absolute_tolerance_comparison_policy<area_t>(constants::zero<area_t>())) != oriented_left) ||
-				(detHiSegEnd == constants::zero<area_t>() && detLoSegStart == constants::zero<area_t>() && get_orientation(get_start(segment), get_end(segment), origin, absolute_tolerance_comparison_policy<area_t>(constants::zero<area_t>())) != oriented_right))
-			{
-				xPoints[0] = get_start(segment);
-				xPoints[1] = get_start(segment);
-				return true;
-			}
-		}
+		if( !clip( detLoSegStart, detLoSegEnd ) || !clip( -detHiSegStart, -detHiSegEnd ) || cmp.greater_than( t0, t1 ) )
+			return false;//! The segment falls outside of the range.
 
-		//! The segment falls outside of the range.
-		return false;
+		vector_type v = get_end( segment ) - get_start( segment );
+		xPoints[0] = t0 == constants::zero<dimensionless_t>() ? construct<Point>( get_start( segment ) ) : construct<Point>( get_start( segment ) + t0 * v );
+		xPoints[1] = t1 == constants::one<dimensionless_t>() ? construct<Point>( get_end( segment ) ) : construct<Point>( get_start( segment ) + t1 * v );
+		return true;
 	}
 
 }//namespace geometrix;
-- 
2.43.0


From c5e5f05166f75edf940237b06603d33be3005773 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:29 +0000
Subject: [PATCH 18/71] fix: point_segment_closest_point of a degenerate
 segment is not a number

---
 .../algorithm/distance/point_segment_closest_point.hpp     | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/geometrix/algorithm/distance/point_segment_closest_point.hpp b/geometrix/algorithm/distance/point_segment_closest_point.hpp
index 197a32b..e790ccb 100644
--- a/geometrix/algorithm/distance/point_segment_closest_point.hpp
+++ b/geometrix/algorithm/distance/point_segment_closest_point.hpp
@@ -70,6 +70,8 @@ namespace geometrix {
 		vector_t AP = p - A;
 		vector_t AB = B - A;
 		auto l2 = dot_product(AB, AB);
+		if (l2 <= construct<decltype(l2)>(0))
+			return construct<point_t>(A);
 		auto t = dot_product(AP, AB) / l2;
 		if (t <= constants::zero<dimensionless_t>())
             return construct<point_t>(A);
@@ -87,6 +89,11 @@ namespace geometrix {
 		vector_t AP = p - A;
 		vector_t AB = B - A;
 		auto l2 = dot_product(AB, AB);
+		if (l2 <= construct<decltype(l2)>(0))
+		{
+			t = constants::zero<Dimensionless>();
+			return construct<point_t>(A);
+		}
 		t = dot_product(AP, AB) / l2;
 		if (t <= constants::zero<Dimensionless>())
             return construct<point_t>(A);
-- 
2.43.0


From e7fb88271127faca233409b69d588aabaed97d38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:37 +0000
Subject: [PATCH 19/71] fix: point_segment_distance of a point on the segment
 is not a number when rounding makes the square negative

---
 geometrix/algorithm/distance/point_segment_distance.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/geometrix/algorithm/distance/point_segment_distance.hpp b/geometrix/algorithm/distance/point_segment_distance.hpp
index b76c8a2..9727478 100644
--- a/geometrix/algorithm/distance/point_segment_distance.hpp
+++ b/geometrix/algorithm/distance/point_segment_distance.hpp
@@ -52,7 +52,10 @@ namespace geometrix {
         auto f = dot_product(ab, ab);
         if (e >= f)
             return dot_product(bc, bc);
-        return dot_product(ac, ac) - e * e / f;
+        auto d2 = dot_product(ac, ac) - e * e / f;
+        if (d2 < construct<decltype(d2)>(0)) //! rounding of a point on the segment.
+            return construct<decltype(d2)>(0);
+        return d2;
     }
 
     template <typename Point, typename Segment>
-- 
2.43.0


From 380da51c49e1a382383ee5ec5e1bdc7acea191df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:37 +0000
Subject: [PATCH 20/71] fix: eberly_segment_segment_distance_sqrd clamps to the
 wrong ends in most regions

---
 .../eberly_segment_segment_distance.hpp       | 156 ++++++++----------
 1 file changed, 73 insertions(+), 83 deletions(-)

diff --git a/geometrix/algorithm/distance/eberly_segment_segment_distance.hpp b/geometrix/algorithm/distance/eberly_segment_segment_distance.hpp
index 0487dea..95298d9 100644
--- a/geometrix/algorithm/distance/eberly_segment_segment_distance.hpp
+++ b/geometrix/algorithm/distance/eberly_segment_segment_distance.hpp
@@ -10,6 +10,7 @@
 #define GEOMETRIX_EBERLY_SEGMENT_SEGMENT_DISTANCE_HPP
 
 #include <geometrix/algorithm/distance/point_point_distance.hpp>
+#include <limits>
 
 namespace geometrix {
 
@@ -54,11 +55,11 @@ namespace geometrix {
         auto vd = p1 - p3;
         auto d = dot_product(v1, vd);
         auto e = dot_product(-v2, vd);
-        auto det = exterior_product_area(v1, v2);
+        auto det = a*c - b*b;
         auto s = b*e - c*d;
         auto t = b*d - a*e;
 
-        if (det == 0)
+        if (det <= 64 * std::numeric_limits<double>::epsilon() * a * c) //! parallel
         {
             if (b > 0)
             {
@@ -97,11 +98,10 @@ namespace geometrix {
                 else
                 {
                     s = 0;
-                    auto tmp= a + d;
-                    if (-tmp >= b)
+                    if (d >= -b)
                         t = 1;
                     else
-                        t = -tmp / b;
+                        t = -d / b;
                 }
             }
         }
@@ -123,27 +123,26 @@ namespace geometrix {
                         else
                         {
                             //Region 3
-                            s = 1.0;
-                            auto tmp= b + e;
-                            if (tmp > 0)
-                                t = 0;
-                            else if (-tmp > c)
-                                t = 1;
+                            auto tmp = b + d;
+                            t = 1;
+                            if (tmp >= 0)
+                                s = 0;
+                            else if (-tmp >= a)
+                                s = 1;
                             else
-                                t = -tmp / c;
+                                s = -tmp / a;
                         }
                     }
                     else
                     {
                         //Region 7
-                        s = 1.0;
-                        auto tmp= b + e;
-                        if (tmp > 0)
-                            t = 0;
-                        else if (-tmp > c)
-                            t = 1;
+                        t = 0;
+                        if (d >= 0)
+                            s = 0;
+                        else if (-d >= a)
+                            s = 1;
                         else
-                            t = -tmp / c;
+                            s = -d / a;
                     }
                 }
                 else
@@ -153,68 +152,65 @@ namespace geometrix {
                         if (t <= det)
                         {
                             //Region 1
-                            s = 1.0;
-                            auto tmp= b + e;
-                            if (tmp > 0)
+                            auto tmp2 = b + e;
+                            s = 1;
+                            if (tmp2 >= 0)
                                 t = 0;
-                            else if (-tmp > c)
+                            else if (-tmp2 >= c)
                                 t = 1;
                             else
-                                t = -tmp / c;
+                                t = -tmp2 / c;
                         }
                         else
                         {
                             //Region 2
-                            auto tmp= b + d;
-                            if (-tmp < a)
+                            if (-(b + d) < a)
                             {
+                                auto tmp = b + d;
                                 t = 1;
-                                if (tmp > 0)
+                                if (tmp >= 0)
                                     s = 0;
+                                else if (-tmp >= a)
+                                    s = 1;
                                 else
                                     s = -tmp / a;
                             }
                             else
                             {
+                                auto tmp2 = b + e;
                                 s = 1;
-                                auto tmp2= b + e;
-                                if (-tmp2 < c)
-                                {
-                                    if (tmp2 > 0)
-                                        t = 0;
-                                    else
-                                        t = -tmp2 / c;
-                                }
-                                else
+                                if (tmp2 >= 0)
+                                    t = 0;
+                                else if (-tmp2 >= c)
                                     t = 1;
+                                else
+                                    t = -tmp2 / c;
                             }
                         }
                     }
                     else
                     {
                         //Region 8
-                        auto tmp= b + d;
-                        if (-tmp < a)
+                        if (-d < a)
                         {
-                            t = 1;
-                            if (tmp > 0)
+                            t = 0;
+                            if (d >= 0)
                                 s = 0;
+                            else if (-d >= a)
+                                s = 1;
                             else
-                                s = -tmp / a;
+                                s = -d / a;
                         }
                         else
                         {
+                            auto tmp2 = b + e;
                             s = 1;
-                            auto tmp2= b + e;
-                            if (-tmp2 < c)
-                            {
-                                if (tmp2 > 0)
-                                    t = 0;
-                                else
-                                    t = -tmp2 / c;
-                            }
-                            else
+                            if (tmp2 >= 0)
+                                t = 0;
+                            else if (-tmp2 >= c)
                                 t = 1;
+                            else
+                                t = -tmp2 / c;
                         }
                     }
                 }
@@ -226,68 +222,62 @@ namespace geometrix {
                     if (t <= det)
                     {
                         //Region 5
-                        s = 1.0;
-                        auto tmp= b + e;
-                        if (tmp > 0)
+                        s = 0;
+                        if (e >= 0)
                             t = 0;
-                        else if (-tmp > c)
+                        else if (-e >= c)
                             t = 1;
                         else
-                            t = -tmp / c;
+                            t = -e / c;
                     }
                     else
                     {
                         //Region 4
-                        auto tmp= b + d;
-                        if (-tmp < a)
+                        if (b + d < 0)
                         {
+                            auto tmp = b + d;
                             t = 1;
-                            if (tmp > 0)
+                            if (tmp >= 0)
                                 s = 0;
+                            else if (-tmp >= a)
+                                s = 1;
                             else
                                 s = -tmp / a;
                         }
                         else
                         {
-                            s = 1;
-                            auto tmp2= b + e;
-                            if (-tmp2 < c)
-                            {
-                                if (tmp2 > 0)
-                                    t = 0;
-                                else
-                                    t = -tmp2 / c;
-                            }
-                            else
+                            s = 0;
+                            if (e >= 0)
+                                t = 0;
+                            else if (-e >= c)
                                 t = 1;
+                            else
+                                t = -e / c;
                         }
                     }
                 }
                 else
                 {
                     //Region 6
-                    auto tmp = b + d;
-                    if (-tmp < a)
+                    if (d < 0)
                     {
-                        t = 1;
-                        if (tmp > 0)
+                        t = 0;
+                        if (d >= 0)
                             s = 0;
+                        else if (-d >= a)
+                            s = 1;
                         else
-                            s = -tmp / a;
+                            s = -d / a;
                     }
                     else
                     {
-                        s = 1;
-                        auto tmp2 = b + e;
-                        if (-tmp2 < c)
-                        {
-                            if (tmp2 > 0)
-                                t = 0;
-                            else
-                                t = -tmp2 / c;
-                        }
-                        else
+                        s = 0;
+                        if (e >= 0)
+                            t = 0;
+                        else if (-e >= c)
                             t = 1;
+                        else
+                            t = -e / c;
                     }
                 }
             }
-- 
2.43.0


From f01effe184378e64e44bc674ea3e2d859567ebed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:52 +0000
Subject: [PATCH 21/71] fix: polyline_polyline_closest_point leaves its results
 unset when the first vertices are the closest

---
 .../algorithm/distance/polyline_polyline_closest_point.hpp    | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/geometrix/algorithm/distance/polyline_polyline_closest_point.hpp b/geometrix/algorithm/distance/polyline_polyline_closest_point.hpp
index c9df598..6531dd9 100644
--- a/geometrix/algorithm/distance/polyline_polyline_closest_point.hpp
+++ b/geometrix/algorithm/distance/polyline_polyline_closest_point.hpp
@@ -103,6 +103,10 @@ namespace geometrix {
         using length_t = typename arithmetic_type_of<point_t>::type;
         using area_t = decltype(std::declval<length_t>() * std::declval<length_t>());
         area_t minDist2 = point_point_distance_sqrd(access1::get_point(p1, 0), access2::get_point(p2, 0));
+        i1 = i2 = 0;
+        s = t = constants::zero<Dimensionless>();
+        assign(c1, access1::get_point(p1, 0));
+        assign(c2, access2::get_point(p2, 0));
 
         using index_range = std::tuple<std::size_t, std::size_t>;
         using work_item = std::tuple<index_range, index_range, area_t>;
-- 
2.43.0


From d49dfc386156abd1b88b56382c6c69fdb2208147 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:52 +0000
Subject: [PATCH 22/71] fix: distance and closest points of large polygons
 ignore the closing edges

---
 .../polygon_polygon_closest_point.hpp         | 23 ++++++++++++++++++-
 .../distance/polygon_polygon_distance.hpp     |  6 ++++-
 2 files changed, 27 insertions(+), 2 deletions(-)

diff --git a/geometrix/algorithm/distance/polygon_polygon_closest_point.hpp b/geometrix/algorithm/distance/polygon_polygon_closest_point.hpp
index 3f1ce45..d4b1a16 100644
--- a/geometrix/algorithm/distance/polygon_polygon_closest_point.hpp
+++ b/geometrix/algorithm/distance/polygon_polygon_closest_point.hpp
@@ -103,7 +103,28 @@ namespace geometrix {
         using point_t = typename point_sequence_traits<Polygon1>::point_type;
         using length_t = typename arithmetic_type_of<point_t>::type;
         using area_t = decltype(std::declval<length_t>() * std::declval<length_t>());
-        area_t minDist2 = point_point_distance_sqrd(access1::get_point(p1, 0), access2::get_point(p2, 0));
+
+        //! The ranges below do not include the edges which close the polygons.
+        const auto last1 = access1::size(p1) - 1, last2 = access2::size(p2) - 1;
+        i1 = last1;
+        area_t minDist2 = segment_polygon_closest_point(access1::get_point(p1, last1), access1::get_point(p1, 0), p2, i2, s, t, c1, c2, cmp);
+        {
+            auto sl = Dimensionless{};
+            auto tl = Dimensionless{};
+            Point c1l, c2l;
+            std::size_t i1l;
+            area_t dl = segment_polygon_closest_point(access2::get_point(p2, last2), access2::get_point(p2, 0), p1, i1l, tl, sl, c2l, c1l, cmp);
+            if(dl < minDist2)
+            {
+                minDist2 = dl;
+                i1 = i1l;
+                i2 = last2;
+                s = sl;
+                t = tl;
+                c1 = c1l;
+                c2 = c2l;
+            }
+        }
 
         using index_range = std::tuple<std::size_t, std::size_t>;
         using work_item = std::tuple<index_range, index_range, area_t>;
diff --git a/geometrix/algorithm/distance/polygon_polygon_distance.hpp b/geometrix/algorithm/distance/polygon_polygon_distance.hpp
index 09b117d..485f0a7 100644
--- a/geometrix/algorithm/distance/polygon_polygon_distance.hpp
+++ b/geometrix/algorithm/distance/polygon_polygon_distance.hpp
@@ -95,7 +95,11 @@ namespace geometrix {
 		using point_t = typename point_sequence_traits<Polygon1>::point_type;
 		using length_t = typename geometric_traits<point_t>::arithmetic_type;
 		using area_t = decltype(std::declval<length_t>() * std::declval<length_t>());
-		area_t minDist2 = point_point_distance_sqrd(access1::get_point(p1, 0), access2::get_point(p2, 0));
+
+		//! The ranges below do not include the edges which close the polygons.
+		const auto last1 = access1::size(p1) - 1, last2 = access2::size(p2) - 1;
+		area_t minDist2 = (std::min)( segment_polygon_distance_sqrd(access1::get_point(p1, last1), access1::get_point(p1, 0), p2, cmp)
+			, segment_polygon_distance_sqrd(access2::get_point(p2, last2), access2::get_point(p2, 0), p1, cmp) );
 
 		using index_range = std::tuple<std::size_t, std::size_t>;
 		using work_item = std::tuple<index_range, index_range, area_t>;
-- 
2.43.0


From 4e34fbf75e9b4122bdfd60bb4e1e7ca5c98871a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:19 +0000
Subject: [PATCH 23/71] fix: distance between three dimensional boxes does not
 compile and mixes coordinates

---
 geometrix/algorithm/distance/aabb_aabb_distance.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/geometrix/algorithm/distance/aabb_aabb_distance.hpp b/geometrix/algorithm/distance/aabb_aabb_distance.hpp
index d3edb1f..fecc647 100644
--- a/geometrix/algorithm/distance/aabb_aabb_distance.hpp
+++ b/geometrix/algorithm/distance/aabb_aabb_distance.hpp
@@ -66,8 +66,8 @@ namespace geometrix {
             return sqDist;
 		}
 
-		template <typename Point, typename NumericSequence>
-		inline typename result_of::aabb_aabb_distance_sqrd<NumericSequence>::type aabb_aabb_distance_sqrd( const axis_aligned_bounding_box<NumericSequence>& aabb1, const axis_aligned_bounding_box<NumericSequence>& aabb2, dimension<2> )
+		template <typename NumericSequence>
+		inline typename result_of::aabb_aabb_distance_sqrd<NumericSequence>::type aabb_aabb_distance_sqrd( const axis_aligned_bounding_box<NumericSequence>& aabb1, const axis_aligned_bounding_box<NumericSequence>& aabb2, dimension<3> )
 		{
 			using result_type = typename result_of::aabb_aabb_distance_sqrd<NumericSequence>::type;
 
@@ -96,7 +96,7 @@ namespace geometrix {
             //! z
             {
                 if(get<2>(ub2) < get<2>(lb1))
-                    sqDist += square(get<2>(ub2) - get<1>(lb1));
+                    sqDist += square(get<2>(ub2) - get<2>(lb1));
                 else if(get<2>(lb2) > get<2>(ub1))
                     sqDist += square(get<2>(lb2) - get<2>(ub1));
             }
-- 
2.43.0


From b0ee05d36dc967d1a6d82b8bd8134fc854e45eff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:19 +0000
Subject: [PATCH 24/71] fix: bounding_box_intersection does not compile

---
 geometrix/algorithm/bounding_box_intersection.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geometrix/algorithm/bounding_box_intersection.hpp b/geometrix/algorithm/bounding_box_intersection.hpp
index 486326b..4b9d62b 100644
--- a/geometrix/algorithm/bounding_box_intersection.hpp
+++ b/geometrix/algorithm/bounding_box_intersection.hpp
@@ -22,7 +22,7 @@ namespace geometrix {
     template <typename NumberComparisonPolicy, typename Point>
     inline bool bounding_box_intersection( const Point& p1, const Point& p2, const Point& p3, const Point& p4, const NumberComparisonPolicy& compare ) 
     {
-        typedef typename geometric_traits<Point>::coordinate_type coordinate_type;
+        typedef typename geometric_traits<Point>::arithmetic_type coordinate_type;
         BOOST_CONCEPT_ASSERT((Point2DConcept<Point>));
 
         coordinate_type xmax1, xmax2, ymax1, ymax2, xmin1, xmin2, ymin1, ymin2;
-- 
2.43.0


From 8a77d882f8515c399a2d70cab560c30afb8c01ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:49 +0000
Subject: [PATCH 25/71] fix: segment_obb_distance measures to a diagonal
 instead of the fourth side

---
 geometrix/algorithm/distance/segment_obb_distance.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geometrix/algorithm/distance/segment_obb_distance.hpp b/geometrix/algorithm/distance/segment_obb_distance.hpp
index 061a3a4..2c5b599 100644
--- a/geometrix/algorithm/distance/segment_obb_distance.hpp
+++ b/geometrix/algorithm/distance/segment_obb_distance.hpp
@@ -33,7 +33,7 @@ namespace geometrix {
 		auto sqDistance = segment_segment_distance_sqrd(seg, make_segment(obb[0], obb[1]), cmp);
 		sqDistance = (std::min)(sqDistance, segment_segment_distance_sqrd(seg, make_segment(obb[1], obb[2]), cmp));
 		sqDistance = (std::min)(sqDistance, segment_segment_distance_sqrd(seg, make_segment(obb[2], obb[3]), cmp));
-		return (std::min)(sqDistance, segment_segment_distance_sqrd(seg, make_segment(obb[3], obb[1]), cmp));
+		return (std::min)(sqDistance, segment_segment_distance_sqrd(seg, make_segment(obb[3], obb[0]), cmp));
 	}
 
 	namespace result_of
-- 
2.43.0


From b66ffba855e11e46035dcf80c354168ede8e77b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:26 +0000
Subject: [PATCH 26/71] fix: cohen_sutherland_line_clip never returns when
 rounding carries an end back over a side

---
 geometrix/algorithm/cohen_sutherland_line_clipping.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/geometrix/algorithm/cohen_sutherland_line_clipping.hpp b/geometrix/algorithm/cohen_sutherland_line_clipping.hpp
index 4de3e63..8bf2481 100644
--- a/geometrix/algorithm/cohen_sutherland_line_clipping.hpp
+++ b/geometrix/algorithm/cohen_sutherland_line_clipping.hpp
@@ -11,6 +11,7 @@
 #pragma once
 
 #include <geometrix/numeric/number_comparison_policy.hpp>
+#include <algorithm>
 
 namespace geometrix 
 {
@@ -145,6 +146,11 @@ namespace geometrix
                     x = xmin;
                 }
 
+                // Rounding must not carry the intersection point beyond the ends of the line,
+                // else an end can leave the side it was clipped to and be clipped forever.
+                x = (std::max)((std::min)(x0, x1), (std::min)((std::max)(x0, x1), x));
+                y = (std::max)((std::min)(y0, y1), (std::min)((std::max)(y0, y1), y));
+
                 // Now we move outside point to intersection point to clip
                 // and get ready for next pass.
                 if (out_classificationOut == out_classification0) 
-- 
2.43.0


From 749888abb56ab3bb74551d3f6786e3a716307a60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:41 +0000
Subject: [PATCH 27/71] fix: convex_polygons_intersection takes the inner side
 of counter-clockwise polygons for the outer side

---
 .../separating_axis_convex_polygons.hpp          | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/geometrix/algorithm/intersection/separating_axis_convex_polygons.hpp b/geometrix/algorithm/intersection/separating_axis_convex_polygons.hpp
index 3bee8fc..a8a3bab 100644
--- a/geometrix/algorithm/intersection/separating_axis_convex_polygons.hpp
+++ b/geometrix/algorithm/intersection/separating_axis_convex_polygons.hpp
@@ -22,24 +22,24 @@ namespace geometrix {
 		using point_type = typename access1::point_type;
         using length_t = typename arithmetic_type_of<point_type>::type;
 		using vector_t = vector<length_t, dimension_of<point_type>::value>;
+		using projection_t = decltype(dot_product(std::declval<vector_t>(), std::declval<vector_t>()));
+		auto min1 = projection_t{}, max1 = projection_t{}, min2 = projection_t{}, max2 = projection_t{};
 
 		for(std::size_t i0 = 0, i1 = access1::size(p1) - 1; i0 < access1::size(p1); i1 = i0, ++i0)
 		{
 			auto d = left_normal<vector_t>(access1::get_point(p1, i0) - access1::get_point(p1, i1));
-			std::size_t min = get_extreme_index(p2, -d, cmp);
-			vector_t diff = access2::get_point(p2, min) - access1::get_point(p1, i0);
-			auto dd = dot_product(d, diff);
-			if(cmp.greater_than(dd, constants::zero<decltype(dd)>()))
+			compute_interval(p1, d, min1, max1, cmp);
+			compute_interval(p2, d, min2, max2, cmp);
+			if(cmp.less_than_or_equal(max1, min2) || cmp.less_than_or_equal(max2, min1))
 				return false;
 		}
 
 		for(std::size_t i0 = 0, i1 = access2::size(p2) - 1; i0 < access2::size(p2); i1 = i0, ++i0)
 		{
 			auto d = left_normal<vector_t>(access2::get_point(p2, i0) - access2::get_point(p2, i1));
-			std::size_t min = get_extreme_index(p1, -d, cmp);
-			vector_t diff = access1::get_point(p1, min) - access2::get_point(p2, i0);
-			auto dd = dot_product(d, diff);
-			if(cmp.greater_than(dd, constants::zero<decltype(dd)>()))
+			compute_interval(p1, d, min1, max1, cmp);
+			compute_interval(p2, d, min2, max2, cmp);
+			if(cmp.less_than_or_equal(max1, min2) || cmp.less_than_or_equal(max2, min1))
 				return false;
 		}
 
-- 
2.43.0


From cdeaffbdfc0ab3a41b55325543719936a3227e68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:21 +0000
Subject: [PATCH 28/71] fix: separating axis search for the extreme vertex of a
 polygon stops at the wrong vertex

---
 .../detail/separating_axis_common.hpp         | 37 ++++---------------
 1 file changed, 7 insertions(+), 30 deletions(-)

diff --git a/geometrix/algorithm/intersection/detail/separating_axis_common.hpp b/geometrix/algorithm/intersection/detail/separating_axis_common.hpp
index d32c109..23ba75c 100644
--- a/geometrix/algorithm/intersection/detail/separating_axis_common.hpp
+++ b/geometrix/algorithm/intersection/detail/separating_axis_common.hpp
@@ -21,14 +21,6 @@ namespace geometrix {
 	
 	namespace detail_separating_axis {
 
-		inline std::size_t get_middle_index(std::size_t i0, std::size_t i1, std::size_t n)
-		{
-			if(i0 < i1)
-				return (i0 + i1) / 2;
-			else
-				return ((i0 + i1 + n) / 2) % n;
-		}
-
 		template <typename Polygon, typename Vector, typename NumberComparisonPolicy>
 		inline std::size_t get_extreme_index(const Polygon& c, const Vector& d, const NumberComparisonPolicy& cmp)
 		{
@@ -37,32 +29,17 @@ namespace geometrix {
 			using length_t = typename arithmetic_type_of<point_type>::type;
 			using vector_t = vector<length_t, dimension_of<point_type>::value>;
 
-			std::size_t i0 = 0;
-			std::size_t i1 = 0;
-			while(true)
+			//! A bisection needs to know on which side of the first vertex the extreme lies, so look at every vertex.
+			std::size_t extreme = 0;
+			for(std::size_t i = 1; i < access::size(c); ++i)
 			{
-				std::size_t mid = get_middle_index(i0, i1, access::size(c));
-				std::size_t next = (mid + 1) % access::size(c);
-				vector_t e = access::get_point(c, next) - access::get_point(c, mid);
+				vector_t e = access::get_point(c, i) - access::get_point(c, extreme);
 				auto de = dot_product(d, e);
 				if(cmp.greater_than(de, constants::zero<decltype(de)>()))
-				{
-					if(mid != i0)
-						i0 = mid;
-					else
-						return i1;
-				}
-				else
-				{
-					std::size_t prev = (mid + access::size(c) - 1) % access::size(c);
-					e = access::get_point(c, mid) - access::get_point(c, prev);
-					de = dot_product(d, e);
-					if(cmp.less_than(de, constants::zero<decltype(de)>()))
-						i1 = mid;
-					else
-						return mid;
-				}
+					extreme = i;
 			}
+
+			return extreme;
 		}
 
 		template <typename Polygon, typename Vector, typename Length, typename NumberComparisonPolicy>
-- 
2.43.0


From 0b031ef7c5cfe1a63887d9b4d96813d8d1148f8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:41 +0000
Subject: [PATCH 29/71] fix: intersection of tangent circles is not a number or
 two points when rounding leaves the height off zero

---
 .../algorithm/intersection/circle_circle_intersection.hpp   | 6 ++++--
 .../algorithm/intersection/sphere_sphere_intersection.hpp   | 6 ++++--
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/geometrix/algorithm/intersection/circle_circle_intersection.hpp b/geometrix/algorithm/intersection/circle_circle_intersection.hpp
index 0f78e45..59beda3 100644
--- a/geometrix/algorithm/intersection/circle_circle_intersection.hpp
+++ b/geometrix/algorithm/intersection/circle_circle_intersection.hpp
@@ -74,7 +74,9 @@ namespace geometrix {
 
         auto r1 = get_radius(A)*get_radius(A);
         auto a = (r1 - get_radius(B)*get_radius(B) + d*d) / (constants::two<dimensionless_t>() * d);
-        auto h = sqrt(r1 - a*a);
+        //! At distance equal to the sum or difference of the radii rounding may leave the height a little off zero, or its square negative.
+        bool isTangent = cmp.equals(d, get_radius(A) + get_radius(B)) || cmp.equals(d, abs(get_radius(A) - get_radius(B)));
+        auto h = isTangent ? constants::zero<length_t>() : length_t(sqrt(r1 - a*a));
 
         vector_t v = get_center(B) - get_center(A);
 
@@ -84,7 +86,7 @@ namespace geometrix {
         auto f = h * dinv;
 
         point_t s1 = m + f * right_normal(v);
-        if (cmp.equals(h, constants::zero<length_t>()))
+        if (isTangent)
             return circle_circle_intersection_result<point_t>(s1);
         
         point_t s2 = m + f * left_normal(v);
diff --git a/geometrix/algorithm/intersection/sphere_sphere_intersection.hpp b/geometrix/algorithm/intersection/sphere_sphere_intersection.hpp
index 80ae0cf..fc8b9c1 100644
--- a/geometrix/algorithm/intersection/sphere_sphere_intersection.hpp
+++ b/geometrix/algorithm/intersection/sphere_sphere_intersection.hpp
@@ -74,7 +74,9 @@ namespace geometrix {
 
         auto r1 = get_radius(A) * get_radius(A);
         auto a = (r1 - get_radius(B) * get_radius(B) + d * d) / (constants::two<dimensionless_t>() * d);
-        auto h = sqrt(r1 - a*a);
+        //! At distance equal to the sum or difference of the radii rounding may leave the height a little off zero, or its square negative.
+        bool isTangent = cmp.equals(d, get_radius(A) + get_radius(B)) || cmp.equals(d, abs(get_radius(A) - get_radius(B)));
+        auto h = isTangent ? constants::zero<length_t>() : length_t(sqrt(r1 - a*a));
 
         vector_t v = get_center(B) - get_center(A);
 
@@ -84,7 +86,7 @@ namespace geometrix {
         auto f = h * dinv;
 
         point_t s1 = m + f * right_normal(v);
-        if (cmp.equals(h, constants::zero<length_t>()))
+        if (isTangent)
             return sphere_sphere_intersection_result<point_t>(s1);
         
         point_t s2 = m + f * left_normal(v);
-- 
2.43.0


From e4a52893a7bacf40a58f59ba685ece19f4e297a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:41 +0000
Subject: [PATCH 30/71] fix: ray_sphere and segment_sphere_intersection of a
 tangent are not a number when rounding makes the discriminant negative

---
 geometrix/algorithm/intersection/ray_sphere_intersection.hpp  | 4 ++++
 .../algorithm/intersection/segment_sphere_intersection.hpp    | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/geometrix/algorithm/intersection/ray_sphere_intersection.hpp b/geometrix/algorithm/intersection/ray_sphere_intersection.hpp
index 5f830b4..1572c10 100644
--- a/geometrix/algorithm/intersection/ray_sphere_intersection.hpp
+++ b/geometrix/algorithm/intersection/ray_sphere_intersection.hpp
@@ -37,6 +37,10 @@ namespace geometrix {
 		if (cmp.less_than(discr, 0))
 			return false;
 
+		// Rounding may leave the discriminant of a tangent ray negative, within tolerance.
+		if (discr < 0)
+			discr = 0;
+
 		// Ray now found to intersect sphere, compute smallest t value of intersection 
 		using std::sqrt;
 		t = -b - sqrt(discr);
diff --git a/geometrix/algorithm/intersection/segment_sphere_intersection.hpp b/geometrix/algorithm/intersection/segment_sphere_intersection.hpp
index 1fc54c8..30e9ab4 100644
--- a/geometrix/algorithm/intersection/segment_sphere_intersection.hpp
+++ b/geometrix/algorithm/intersection/segment_sphere_intersection.hpp
@@ -110,6 +110,10 @@ namespace geometrix {
         if (cmp.less_than(discr, 0))
             return false;
 
+        // Rounding may leave the discriminant of a tangent segment negative, within tolerance.
+        if (discr < 0)
+            discr = 0;
+
         // segment now found to intersect sphere, compute smallest t value of intersection 
         using std::sqrt;
         t = -b - sqrt(discr);
-- 
2.43.0


From 908e8559374227d793d126b8e8b318a79c7f7d64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:41 +0000
Subject: [PATCH 31/71] fix: segment_sphere_intersection leaves the point unset
 for a degenerate segment

---
 geometrix/algorithm/intersection/segment_sphere_intersection.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/geometrix/algorithm/intersection/segment_sphere_intersection.hpp b/geometrix/algorithm/intersection/segment_sphere_intersection.hpp
index 30e9ab4..67efaa6 100644
--- a/geometrix/algorithm/intersection/segment_sphere_intersection.hpp
+++ b/geometrix/algorithm/intersection/segment_sphere_intersection.hpp
@@ -94,6 +94,7 @@ namespace geometrix {
         if (cmp.equals(length, 0))
         {
             t = 0;
+            assign(q, sa);
             return cmp.less_than_or_equal(c, 0);
         }
 
-- 
2.43.0


From 012b548147ccc93104f807fcaf6c43a5a5af3fb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:30 +0000
Subject: [PATCH 32/71] fix: segment_capsule_intersection misses segments that
 start inside the capsule

---
 .../intersection/segment_capsule_intersection.hpp      | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/geometrix/algorithm/intersection/segment_capsule_intersection.hpp b/geometrix/algorithm/intersection/segment_capsule_intersection.hpp
index 15532e3..eeb3552 100644
--- a/geometrix/algorithm/intersection/segment_capsule_intersection.hpp
+++ b/geometrix/algorithm/intersection/segment_capsule_intersection.hpp
@@ -37,6 +37,16 @@ namespace geometrix {
 		using std::sqrt;
 		using std::abs;
 
+		// A segment that starts inside the capsule meets it there.
+		ArithmeticType s = md < 0 ? ArithmeticType(0) : md > dd ? dd : md;
+		vector<ArithmeticType, 2> e = dd > 0 ? vector<ArithmeticType, 2>(m - (s / dd) * d) : m;
+		if (dot_product(e, e) <= r * r)
+		{
+			t = 0;
+			assign(xPoint, sa);
+			return true;
+		}
+
 		// Test if segment fully outside either endcap of capsule 
 		if (md < 0 && md + nd < 0)
 			return segment_sphere_intersection(sa, n, sqrt(nn), make_sphere<2>(p, r), t, xPoint, cmp); // Segment outside 'p' side of capsule
-- 
2.43.0


From 6ee5d6ab682c21f87099f1eda0db18a0a814c3fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:30 +0000
Subject: [PATCH 33/71] fix: segment_capsule_intersection never recognises a
 segment parallel to the capsule

---
 .../algorithm/intersection/segment_capsule_intersection.hpp     | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geometrix/algorithm/intersection/segment_capsule_intersection.hpp b/geometrix/algorithm/intersection/segment_capsule_intersection.hpp
index eeb3552..5d6266b 100644
--- a/geometrix/algorithm/intersection/segment_capsule_intersection.hpp
+++ b/geometrix/algorithm/intersection/segment_capsule_intersection.hpp
@@ -57,7 +57,7 @@ namespace geometrix {
 		ArithmeticType a = dd * nn - nd * nd; 
 		ArithmeticType k = dot_product(m, m) - r * r; 
 		ArithmeticType c = dd * k - md * md; 
-		if (cmp.less_than(abs(a), 0))
+		if (cmp.equals(a, 0))
 		{
 			// Segment runs parallel to capsule axis
 			if (c > 0)
-- 
2.43.0


From 907459b30d9ecc312f8006d3dfb50a219ea0c421 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:52 +0000
Subject: [PATCH 34/71] fix: moving_sphere_aabb_intersection of a sphere that
 overlaps the box or starts by its corner uses the exit point

---
 .../moving_sphere_aabb_intersection.hpp          | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/geometrix/algorithm/intersection/moving_sphere_aabb_intersection.hpp b/geometrix/algorithm/intersection/moving_sphere_aabb_intersection.hpp
index 48f1905..2a157e1 100644
--- a/geometrix/algorithm/intersection/moving_sphere_aabb_intersection.hpp
+++ b/geometrix/algorithm/intersection/moving_sphere_aabb_intersection.hpp
@@ -14,6 +14,7 @@
 #include <geometrix/algorithm/intersection/moving_sphere_segment_intersection.hpp>
 #include <geometrix/algorithm/intersection/ray_aabb_intersection.hpp>
 #include <geometrix/algorithm/distance/point_segment_closest_point.hpp>
+#include <geometrix/algorithm/distance/point_aabb_distance.hpp>
 
 /////////////////////////////////////////////////////////////////////////////
 //
@@ -72,6 +73,16 @@ namespace geometrix {
     template <typename Sphere, typename Velocity, typename AABB, typename Time, typename Point, typename NumberComparisonPolicy>
     inline bool moving_sphere_aabb_intersection( const Sphere& s, const Velocity& velocity, const AABB& a, Time& t, Point& q, const NumberComparisonPolicy& cmp )
     {
+        // If already intersecting, q is the closest point of the box.
+        Point closest = point_aabb_closest_point(get_center(s), a);
+        auto overlap = point_point_distance_sqrd(get_center(s), closest) - get_radius(s) * get_radius(s);
+        if (cmp.less_than(overlap, constants::zero<decltype(overlap)>()))
+        {
+            t = constants::zero<Time>();
+            assign(q, closest);
+            return moving_sphere_aabb_intersection_result(true, true, false, true, false);
+        }
+
         // Compute the AABB resulting from expanding a by sphere radius r
         using length_t = typename geometric_traits<Point>::arithmetic_type;
         using vector_t = vector<length_t, dimension_of<Velocity>::value>;
@@ -82,8 +93,11 @@ namespace geometrix {
         // Intersect ray against expanded AABB e. Exit with no intersection if ray 
         // misses e, else get intersection point p and time t as result
         Point p;
-        if (!ray_aabb_intersection(get_center(s), velocity, e, t, p, cmp))
+        auto rayResult = ray_aabb_intersection(get_center(s), velocity, e, t, p, cmp);
+        if (!rayResult)
             return moving_sphere_aabb_intersection_result();
+        if (rayResult.is_origin_inside())
+            assign(p, get_center(s)); // by a corner of e, where e is larger than the expansion of a by a circle
 
         // Compute which min and max faces of a the intersection point p lies
         // outside of. Note, u and v cannot have the same bits set and 
-- 
2.43.0


From bd7cc4d9e3af96dd390cfcae2b21e6b6950f2625 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:11 +0000
Subject: [PATCH 35/71] fix: moving_sphere_obb_intersection of a sphere that
 overlaps the box or starts by its corner uses the exit point

---
 .../moving_sphere_obb_intersection.hpp           | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/geometrix/algorithm/intersection/moving_sphere_obb_intersection.hpp b/geometrix/algorithm/intersection/moving_sphere_obb_intersection.hpp
index 8e9805d..511115b 100644
--- a/geometrix/algorithm/intersection/moving_sphere_obb_intersection.hpp
+++ b/geometrix/algorithm/intersection/moving_sphere_obb_intersection.hpp
@@ -15,6 +15,7 @@
 #include <geometrix/algorithm/intersection/moving_sphere_segment_intersection.hpp>
 #include <geometrix/algorithm/intersection/ray_aabb_intersection.hpp>
 #include <geometrix/algorithm/distance/point_segment_closest_point.hpp>
+#include <geometrix/algorithm/distance/point_obb_distance.hpp>
 #include <geometrix/algorithm/rotation.hpp>
 
 namespace geometrix {
@@ -75,6 +76,16 @@ namespace geometrix {
         using dimensionless_t = typename geometric_traits<point_t>::dimensionless_type;
         using unit_vector_t = vector<dimensionless_t, dimension_of<point_t>::value>;
 
+        // If already intersecting, q is the closest point of the box.
+        Point closest = point_obb_closest_point(get_center(s), obb);
+        auto overlap = point_point_distance_sqrd(get_center(s), closest) - get_radius(s) * get_radius(s);
+        if (cmp.less_than(overlap, constants::zero<decltype(overlap)>()))
+        {
+            t = constants::zero<Time>();
+            assign(q, closest);
+            return moving_sphere_obb_intersection_result(true, true, false, true, false);
+        }
+
         //! Create a reference frame for the OBB and generate an AABB and sphere in that frame.
         //! Then use the AABB test and convert any results back to the original frame.
 		auto ll = obb[0];// .get_right_backward_point();
@@ -94,8 +105,11 @@ namespace geometrix {
         // Intersect ray against expanded AABB e. Exit with no intersection if ray
         // misses e, else get intersection point p and time t as result
         Point p;
-        if (!ray_aabb_intersection(get_center(rs), rvelocity, e, t, p, cmp))
+        auto rayResult = ray_aabb_intersection(get_center(rs), rvelocity, e, t, p, cmp);
+        if (!rayResult)
             return moving_sphere_obb_intersection_result();
+        if (rayResult.is_origin_inside())
+            assign(p, get_center(rs)); // by a corner of e, where e is larger than the expansion of a by a circle
 
         // Compute which min and max faces of a the intersection point p lies
         // outside of. Note, u and v cannot have the same bits set and
-- 
2.43.0


From b7210b6fd8ef7ce8c969cb6fb36534ee96dea330 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:35 +0000
Subject: [PATCH 36/71] fix: kd_tree range search visits points outside the
 range

---
 geometrix/algorithm/kd_tree.hpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/geometrix/algorithm/kd_tree.hpp b/geometrix/algorithm/kd_tree.hpp
index 7d23cfe..2d14fbe 100644
--- a/geometrix/algorithm/kd_tree.hpp
+++ b/geometrix/algorithm/kd_tree.hpp
@@ -67,7 +67,10 @@ namespace geometrix {
         void search( const axis_aligned_bounding_box<T>& range, Visitor&& visitor, const NumberComparisonPolicy& compare ) const
         {
             if( m_pLeaf )
-                visitor( *m_pLeaf );
+            {
+                if( range.intersects( *m_pLeaf, compare ) )
+                    visitor( *m_pLeaf );
+            }
             else
                 search<0>( range, visitor, compare );
         }
@@ -163,7 +166,9 @@ namespace geometrix {
         {
             if( m_pLeaf )
             {
-                visitor( *m_pLeaf );
+                //! The range meets the region of the leaf, but need not hold its point.
+                if( range.intersects( *m_pLeaf, compare ) )
+                    visitor( *m_pLeaf );
                 return;
             }
 
-- 
2.43.0


From 20664616db92a23bbde7fef65ed42ae0ae4658c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:36 +0000
Subject: [PATCH 37/71] fix: orientation_segment_traversal never ends for a
 descending segment within one column

---
 geometrix/algorithm/orientation_grid_traversal.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/geometrix/algorithm/orientation_grid_traversal.hpp b/geometrix/algorithm/orientation_grid_traversal.hpp
index ac34cdc..fb65cd4 100644
--- a/geometrix/algorithm/orientation_grid_traversal.hpp
+++ b/geometrix/algorithm/orientation_grid_traversal.hpp
@@ -84,7 +84,10 @@ namespace geometrix
 
             while (j != j_end)
             {
-                ++j;
+                if (j < j_end)
+                    ++j;
+                else
+                    --j;
                 visitor(i, j);
             }
             return;
-- 
2.43.0


From 4788a0f8a5c3fa5fa1c2f96d0bdfd2a6d7b5778f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:25 +0000
Subject: [PATCH 38/71] fix: orientation_segment_traversal skips cells when
 scaled coordinates round

---
 .../algorithm/orientation_grid_traversal.hpp  | 57 ++++---------------
 1 file changed, 12 insertions(+), 45 deletions(-)

diff --git a/geometrix/algorithm/orientation_grid_traversal.hpp b/geometrix/algorithm/orientation_grid_traversal.hpp
index fb65cd4..4787629 100644
--- a/geometrix/algorithm/orientation_grid_traversal.hpp
+++ b/geometrix/algorithm/orientation_grid_traversal.hpp
@@ -65,11 +65,8 @@ namespace geometrix
 
         int signDeltaY = cmp.greater_than_or_equal(y2, y1) ? 1 : -1;
         
-        coordinate_type x = x1;
-        coordinate_type y = y1;
-
-        std::uint32_t i = static_cast<std::uint32_t>(x);
-        std::uint32_t j = static_cast<std::uint32_t>(y);
+        std::uint32_t i = static_cast<std::uint32_t>(x1);
+        std::uint32_t j = static_cast<std::uint32_t>(y1);
 
         std::uint32_t i_end = static_cast<std::uint32_t>(x2);
         std::uint32_t j_end = static_cast<std::uint32_t>(y2);
@@ -96,7 +93,7 @@ namespace geometrix
         //! search along the horizontal strip
         if (j == j_end)
         {
-            while (i != i_end)
+            while (i < i_end)
             {
                 ++i;
                 visitor(i, j);
@@ -105,7 +102,6 @@ namespace geometrix
         }
 
         //! The segment is sloped. Use a Bresenham-like traversal which is guided by the segment's orientation to the cells.
-        std::uint32_t old_i = i, old_j = j;
         while (true)
         {
             point<coordinate_type,2> cornerPoint;
@@ -128,45 +124,16 @@ namespace geometrix
                     orientation = oriented_left;
             }
 
-            //! Check for overrun.
-            coordinate_type xdiff = x2 - x;
-            coordinate_type ydiff = y2 - y;
-            bool x_is_over = cmp.less_than(xdiff, 0);
-            bool y_is_over = signDeltaY > 0 ? cmp.less_than(ydiff, 0) : cmp.greater_than(ydiff, 0);
-
-            if (orientation == oriented_left)
-            {
-                if (x_is_over || cmp.equals(xdiff, 0))
-                    break;
-                else
-                    x += (std::min<coordinate_type>)(1, xdiff);
-            }
-            else if (orientation == oriented_collinear)
-            {
-                if ((x_is_over && y_is_over) || (cmp.equals(xdiff, 0) && cmp.equals(ydiff, 0)))
-                    break;
-                else
-                {
-                    x += (std::min<coordinate_type>)(1, xdiff);
-                    y += signDeltaY > 0 ? (std::min<coordinate_type>)(signDeltaY, ydiff) : (std::max<coordinate_type>)(signDeltaY, ydiff);
-                }
-            }
-            else if (orientation == oriented_right)
-            {
-                if (y_is_over || cmp.equals(ydiff, 0))
-                    break;
-                else
-                    y += signDeltaY > 0 ? (std::min<coordinate_type>)(signDeltaY, ydiff) : (std::max<coordinate_type>)(signDeltaY, ydiff);
-            }
-
-            i = static_cast<std::uint32_t>(x);
-            j = static_cast<std::uint32_t>(y);
-
-            if (old_i != i || old_j != j)
-                visitor(i, j);
+            //! Step over the side the segment leaves the cell by. Stepping whole cells, rather than adding to the scaled coordinates, cannot skip a cell when they round.
+            bool x_is_done = i >= i_end, y_is_done = signDeltaY > 0 ? j >= j_end : j <= j_end;
+            if (x_is_done && y_is_done)
+                break;
+            if (!x_is_done && (orientation != oriented_right || y_is_done))
+                ++i;
+            if (!y_is_done && (orientation != oriented_left || x_is_done))
+                j += signDeltaY;
 
-            old_i = i;
-            old_j = j;
+            visitor(i, j);
         }
     }
 }//! namespace geometrix;
-- 
2.43.0


From eb0640caa75d49d87ab00f968cf0eda6104bdeae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:16 +0000
Subject: [PATCH 39/71] fix: floodfill_grid_traversal visits the interior of
 holes whose column extents overlap

---
 geometrix/algorithm/floodfill_grid_traversal.hpp | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/geometrix/algorithm/floodfill_grid_traversal.hpp b/geometrix/algorithm/floodfill_grid_traversal.hpp
index 58aa61d..79a2249 100644
--- a/geometrix/algorithm/floodfill_grid_traversal.hpp
+++ b/geometrix/algorithm/floodfill_grid_traversal.hpp
@@ -212,10 +212,12 @@ namespace geometrix
 					//! Sweep j and find first empty.
 					for (auto k = jmin + 1; k < jmax; ) 
 					{
-						if (bit != holeBounds.end() && k >= bit->first && k <= bit->second)
+						//! Extents of holes side by side in the column may overlap or nest.
+						while (bit != holeBounds.end() && bit->second < k)
+							++bit;
+						if (bit != holeBounds.end() && k >= bit->first)
 						{
 							k = bit->second + 1;
-							++bit;
 							continue;
 						}
 						if (get_color(i, k) != BOUNDARY)
@@ -250,10 +252,12 @@ namespace geometrix
 					//! Sweep j and find first empty.
 					for (auto k = jmin + 1; k < jmax; ) 
 					{
-						if (bit != holeBounds.end() && k >= bit->first && k <= bit->second)
+						//! Extents of holes side by side in the column may overlap or nest.
+						while (bit != holeBounds.end() && bit->second < k)
+							++bit;
+						if (bit != holeBounds.end() && k >= bit->first)
 						{
 							k = bit->second + 1;
-							++bit;
 							continue;
 						}
 						if (get_color(i, k) != BOUNDARY)
-- 
2.43.0


From 4a8ed1b868e32e1f035572d7b556782ecefb2e51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:03 +0000
Subject: [PATCH 40/71] fix: solid_leaf_bsp_tree ray starting on a splitting
 plane is taken to the wrong side first

---
 geometrix/algorithm/solid_leaf_bsp_tree.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/geometrix/algorithm/solid_leaf_bsp_tree.hpp b/geometrix/algorithm/solid_leaf_bsp_tree.hpp
index d564fff..167490b 100644
--- a/geometrix/algorithm/solid_leaf_bsp_tree.hpp
+++ b/geometrix/algorithm/solid_leaf_bsp_tree.hpp
@@ -656,7 +656,8 @@ namespace geometrix {
                     auto denom = scalar_projection(d, get_normal_vector(node));
                     //! Compute distance from dividing plane to p.
                     auto dist = get_distance_to_origin(node) - scalar_projection(as_vector(p), get_normal_vector(node));
-                    auto nearIndex = dist > constants::zero<length_t>();
+                    //! A ray starting on the plane comes from the side it is leaving.
+                    auto nearIndex = dist > constants::zero<length_t>() || (dist == constants::zero<length_t>() && denom > constants::zero<decltype(denom)>());
                     //! If denom is zero, ray runs parallel to plane. In this case,
                     //! just fall through to visit the near side (the one p lies on)
                     if (denom != constants::zero<decltype(denom)>())
-- 
2.43.0


From 1a5b327903f73884e5d1da26fb6b21d43bdc903c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:03 +0000
Subject: [PATCH 41/71] fix: solid_leaf_bsp_tree splits again by the plane of
 coplanar simplices

---
 geometrix/algorithm/solid_leaf_bsp_tree.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/geometrix/algorithm/solid_leaf_bsp_tree.hpp b/geometrix/algorithm/solid_leaf_bsp_tree.hpp
index 167490b..9752169 100644
--- a/geometrix/algorithm/solid_leaf_bsp_tree.hpp
+++ b/geometrix/algorithm/solid_leaf_bsp_tree.hpp
@@ -459,6 +459,9 @@ namespace geometrix {
 
                     coplanarIndices.push_back(sIndices[i]);
 
+                    //! The plane bounds both children: splitting again by the same plane would leave one of them without area.
+                    usedBits.set(i);
+
                     //! Attempt to push according to the normal of the smplex.
                     auto smplxPlane = m_planes[sIndices[i]];
                     auto smplxNormal = plane_access::get_normal_vector(smplxPlane);
-- 
2.43.0


From 45c0edfb9cb2daad2f657855de1d4f3ddf2eee5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:03 +0000
Subject: [PATCH 42/71] fix: node_bsp_tree_2d::painters_traversal does not
 compile

---
 geometrix/algorithm/node_bsp_tree_2d.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geometrix/algorithm/node_bsp_tree_2d.hpp b/geometrix/algorithm/node_bsp_tree_2d.hpp
index 8726e01..f1ad4c5 100644
--- a/geometrix/algorithm/node_bsp_tree_2d.hpp
+++ b/geometrix/algorithm/node_bsp_tree_2d.hpp
@@ -578,7 +578,7 @@ namespace geometrix {
     template <typename Point, typename Visitor, typename NumberComparisonPolicy>
     inline void node_bsp_tree_2d< Segment >::painters_traversal( const Point& point, Visitor&& visitor, const NumberComparisonPolicy& compare ) const
     {
-        BOOST_CONCEPT_ASSERT((VisitorConcept<Visitor,Segment>));
+        BOOST_CONCEPT_ASSERT((VisitorConcept<typename std::decay<Visitor>::type,Segment>));
         typedef Segment segment_type;
 
         if( m_negativeChild == 0 && m_positiveChild == 0 )
-- 
2.43.0


From d90305dd5b4bc94074a103bca21872c0a218fc60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:03 +0000
Subject: [PATCH 43/71] fix: node_bsp_tree_2d::locate_point misses border
 points of the negative side

---
 geometrix/algorithm/node_bsp_tree_2d.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/geometrix/algorithm/node_bsp_tree_2d.hpp b/geometrix/algorithm/node_bsp_tree_2d.hpp
index f1ad4c5..974bc40 100644
--- a/geometrix/algorithm/node_bsp_tree_2d.hpp
+++ b/geometrix/algorithm/node_bsp_tree_2d.hpp
@@ -545,6 +545,10 @@ namespace geometrix {
 
             if( m_positiveChild != 0 )
             {
+                //! An edge of the negative side may end on the splitting line at the point.
+                if( m_negativeChild != 0 && m_negativeChild->locate_point( point, compare ) == e_boundary )
+                    return e_boundary;
+
                 return m_positiveChild->locate_point( point, compare );
             }
             else if( m_negativeChild != 0 )
-- 
2.43.0


From 57eca5c3f18b93fd69d29b6b3d3d86a308b08016 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:24 +0000
Subject: [PATCH 44/71] fix: polyline_split at the end of the polyline loses
 its last segment

---
 geometrix/algorithm/point_sequence/polyline_split.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/geometrix/algorithm/point_sequence/polyline_split.hpp b/geometrix/algorithm/point_sequence/polyline_split.hpp
index 4932c1c..9a5c743 100644
--- a/geometrix/algorithm/point_sequence/polyline_split.hpp
+++ b/geometrix/algorithm/point_sequence/polyline_split.hpp
@@ -113,6 +113,10 @@ namespace geometrix {
             }
         }
 
+		//! The position is at (or beyond) the end.
+		if (j == size && size > 0)
+			a.push_back(access::get_point(poly, i));
+
 		polyline_t b = { a.back() };
         for (; j < size; ++j)
             b.push_back(access::get_point(poly, j));
-- 
2.43.0


From 2ab94211a33e7c73144d1ecaf6418462f2b94d7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:58 +0000
Subject: [PATCH 45/71] fix: identify_collinear_points_polygon names the wrong
 points of a collinear run

---
 .../remove_collinear_points.hpp               | 33 +++++++++++--------
 1 file changed, 20 insertions(+), 13 deletions(-)

diff --git a/geometrix/algorithm/point_sequence/remove_collinear_points.hpp b/geometrix/algorithm/point_sequence/remove_collinear_points.hpp
index 9d06796..c8f3caa 100644
--- a/geometrix/algorithm/point_sequence/remove_collinear_points.hpp
+++ b/geometrix/algorithm/point_sequence/remove_collinear_points.hpp
@@ -13,6 +13,7 @@
 #include <geometrix/primitive/point_sequence_traits.hpp>
 #include <geometrix/utility/utilities.hpp>
 #include <set>
+#include <vector>
 
 namespace geometrix {
 
@@ -27,25 +28,31 @@ namespace geometrix {
         if (size < 4)
             return cPoints;
 
-        Polygon newPoly{ poly.front(), access::get_point(poly, 1) };
+        auto collinear = [&](std::size_t a, std::size_t b, std::size_t c)
+        {
+            return is_collinear(access::get_point(poly, a), access::get_point(poly, b), access::get_point(poly, c), cmp);
+        };
+
+        //! The indices of the points which are kept.
+        std::vector<std::size_t> kept{ 0, 1 };
         for (std::size_t i = 2; i < size; ++i)
         {
-            const auto& a = access::get_point(newPoly, access::size(newPoly) - 2);
-            auto& b = access::back(newPoly);
-            const auto& c = poly[i];
-            if (!is_collinear(a, b, c, cmp))
+            if (collinear(kept[kept.size() - 2], kept.back(), i))
             {
-                if (i + 1 < size || !is_collinear(b, c, access::front(poly), cmp))
-                {
-                    newPoly.push_back(c);
-                    continue;
-                }
+                cPoints.insert(kept.back());
+                kept.pop_back();
             }
-            else
-                assign(b, c);//! replace b with c.      
+            kept.push_back(i);
+        }
 
-            cPoints.insert(i);
+        //! The points about the segment which closes the polygon.
+        while (kept.size() > 3 && collinear(kept[kept.size() - 2], kept.back(), kept.front()))
+        {
+            cPoints.insert(kept.back());
+            kept.pop_back();
         }
+        if (kept.size() > 3 && collinear(kept.back(), kept[0], kept[1]))
+            cPoints.insert(kept.front());
 
         return cPoints;
     }
-- 
2.43.0


From a790026fa8098e1301e119ddc6720823ea893ddf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:28 +0000
Subject: [PATCH 46/71] fix: remove_collinear_points_polygon keeps collinear
 points at the closing segment

---
 .../point_sequence/remove_collinear_points.hpp        | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/geometrix/algorithm/point_sequence/remove_collinear_points.hpp b/geometrix/algorithm/point_sequence/remove_collinear_points.hpp
index c8f3caa..98284ac 100644
--- a/geometrix/algorithm/point_sequence/remove_collinear_points.hpp
+++ b/geometrix/algorithm/point_sequence/remove_collinear_points.hpp
@@ -74,14 +74,17 @@ namespace geometrix {
             auto& b = access::back(newPoly);
             const auto& c = poly[i];
             if (!is_collinear(a, b, c, cmp))
-            {
-                if( i + 1 < size || !is_collinear(b, c, access::front(poly), cmp))
-                    newPoly.push_back(c);               
-            }
+                newPoly.push_back(c);
             else
                 assign(b, c);//! replace b with c.      
         }
 
+        //! The points about the segment which closes the polygon.
+        while (access::size(newPoly) > 3 && is_collinear(access::get_point(newPoly, access::size(newPoly) - 2), access::back(newPoly), access::front(newPoly), cmp))
+            access::pop_back(newPoly);
+        if (access::size(newPoly) > 3 && is_collinear(access::back(newPoly), access::front(newPoly), access::get_point(newPoly, 1), cmp))
+            newPoly.erase(newPoly.begin());
+
         return newPoly;
     }
 
-- 
2.43.0


From 9be3d022ae637b58815fbc3397dffa171782a3bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:29 +0000
Subject: [PATCH 47/71] fix: points repeating the first one at the end of a
 polygon are not all coalesced

---
 .../remove_collinear_points.hpp               | 41 +++++++++++--------
 1 file changed, 24 insertions(+), 17 deletions(-)

diff --git a/geometrix/algorithm/point_sequence/remove_collinear_points.hpp b/geometrix/algorithm/point_sequence/remove_collinear_points.hpp
index 98284ac..cc2aab8 100644
--- a/geometrix/algorithm/point_sequence/remove_collinear_points.hpp
+++ b/geometrix/algorithm/point_sequence/remove_collinear_points.hpp
@@ -130,12 +130,14 @@ namespace geometrix {
             const auto& b = poly[i];
             auto distanceSqrd = point_point_distance_sqrd(a, b);
             if (cmp.greater_than(distanceSqrd, constants::zero<decltype(distanceSqrd)>()))
-            {
-                if (i + 1 < size || cmp.greater_than(point_point_distance_sqrd(b, access::front(poly)), constants::zero<decltype(distanceSqrd)>()))
-                    newPoly.push_back(b);
-            }
+                newPoly.push_back(b);
         }
 
+        //! The points at the end which repeat the first one.
+        auto repeatsFront = [&](){ auto distanceSqrd = point_point_distance_sqrd(access::back(newPoly), access::front(newPoly)); return !cmp.greater_than(distanceSqrd, constants::zero<decltype(distanceSqrd)>()); };
+        while (access::size(newPoly) > 1 && repeatsFront())
+            access::pop_back(newPoly);
+
         return newPoly;
     }
 
@@ -149,22 +151,27 @@ namespace geometrix {
             return cIndex;
 
         //! TODO: need to generically construct polygons.
-        Polygon newPoly{ poly.front() };
+        auto distinct = [&](std::size_t a, std::size_t b)
+        {
+            auto distanceSqrd = point_point_distance_sqrd(access::get_point(poly, a), access::get_point(poly, b));
+            return cmp.greater_than(distanceSqrd, constants::zero<decltype(distanceSqrd)>());
+        };
+
+        //! The indices of the points which are kept.
+        std::vector<std::size_t> kept{ 0 };
         for (std::size_t i = 1; i < size; ++i)
         {
-            auto& a = access::back(newPoly);
-            const auto& b = poly[i];
-            auto distanceSqrd = point_point_distance_sqrd(a, b);
-            if (cmp.greater_than(distanceSqrd, constants::zero<decltype(distanceSqrd)>()))
-            {
-                if (i + 1 < size || cmp.greater_than(point_point_distance_sqrd(b, access::front(poly)), constants::zero<decltype(distanceSqrd)>()))
-                {
-                    newPoly.push_back(b);
-                    continue;
-                }
-            }
+            if (distinct(kept.back(), i))
+                kept.push_back(i);
+            else
+                cIndex.insert(i);
+        }
 
-            cIndex.insert(i);
+        //! The points at the end which repeat the first one.
+        while (kept.size() > 1 && !distinct(kept.back(), 0))
+        {
+            cIndex.insert(kept.back());
+            kept.pop_back();
         }
 
         return cIndex;
-- 
2.43.0


From b0041dfa5e6146e5b036bb4c37f3fe7e44622e4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:29 +0000
Subject: [PATCH 48/71] fix: ramer_douglas_peucker_algorithm leaves the split
 vertex out of the left part

---
 .../point_sequence/ramer_douglas_peucker_algorithm.hpp          | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geometrix/algorithm/point_sequence/ramer_douglas_peucker_algorithm.hpp b/geometrix/algorithm/point_sequence/ramer_douglas_peucker_algorithm.hpp
index d21f22f..3c05e95 100644
--- a/geometrix/algorithm/point_sequence/ramer_douglas_peucker_algorithm.hpp
+++ b/geometrix/algorithm/point_sequence/ramer_douglas_peucker_algorithm.hpp
@@ -51,7 +51,7 @@ namespace geometrix {
 			// If max distance is greater than epsilon, recursively simplify
 			if (dmax > epsilon)
 			{
-				ramer_douglas_peucker_algorithm(poly, nPoly, start, index, epsilon);
+				ramer_douglas_peucker_algorithm(poly, nPoly, start, index + 1, epsilon);
 				access::pop_back(nPoly);
 				ramer_douglas_peucker_algorithm(poly, nPoly, index, end, epsilon);
 			}
-- 
2.43.0


From 3d55f158ef9a02958366ea7dd7897d1890916691 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:29 +0000
Subject: [PATCH 49/71] fix: ramer_douglas_peucker_algorithm drops every vertex
 between coincident end points

---
 .../ramer_douglas_peucker_algorithm.hpp       | 21 ++++++++++++++++---
 1 file changed, 18 insertions(+), 3 deletions(-)

diff --git a/geometrix/algorithm/point_sequence/ramer_douglas_peucker_algorithm.hpp b/geometrix/algorithm/point_sequence/ramer_douglas_peucker_algorithm.hpp
index 3c05e95..fe1278d 100644
--- a/geometrix/algorithm/point_sequence/ramer_douglas_peucker_algorithm.hpp
+++ b/geometrix/algorithm/point_sequence/ramer_douglas_peucker_algorithm.hpp
@@ -15,6 +15,7 @@
 #include <geometrix/tensor/vector.hpp>
 #include <geometrix/primitive/line.hpp>
 #include <geometrix/algorithm/distance/point_line_distance.hpp>
+#include <geometrix/algorithm/distance/point_point_distance.hpp>
 
 #include <boost/range/join.hpp>
 
@@ -36,15 +37,29 @@ namespace geometrix {
 			auto index = std::size_t{};
 			if ((start + 2) < end)
 			{
-				line_t l(access::get_point(poly, start), access::get_point(poly, end - 1));
-				for (std::size_t i = start + 1; (i + 1) < end; ++i)
+				auto update = [&](std::size_t i, const length_t& d)
 				{
-					auto d = point_line_distance(access::get_point(poly, i), l);
 					if (d > dmax)
 					{
 						index = i;
 						dmax = d;
 					}
+				};
+
+				const auto& first = access::get_point(poly, start);
+				const auto& last = access::get_point(poly, end - 1);
+				auto chord = point_point_distance(first, last);
+				if (chord > constants::zero<decltype(chord)>())
+				{
+					line_t l(first, last);
+					for (std::size_t i = start + 1; (i + 1) < end; ++i)
+						update(i, point_line_distance(access::get_point(poly, i), l));
+				}
+				else
+				{
+					//! There is no line through coincident end points.
+					for (std::size_t i = start + 1; (i + 1) < end; ++i)
+						update(i, point_point_distance(access::get_point(poly, i), first));
 				}
 			}
 
-- 
2.43.0


From 8b1b9d7934984e21b6d3b05d3a8c20d5f16fe3ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:17 +0000
Subject: [PATCH 50/71] fix: point_polyline_orientation takes points before the
 start of the closest segment for points beyond its end

---
 .../algorithm/point_sequence/point_polyline_orientation.hpp     | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geometrix/algorithm/point_sequence/point_polyline_orientation.hpp b/geometrix/algorithm/point_sequence/point_polyline_orientation.hpp
index 34c38f2..3b06504 100644
--- a/geometrix/algorithm/point_sequence/point_polyline_orientation.hpp
+++ b/geometrix/algorithm/point_sequence/point_polyline_orientation.hpp
@@ -46,7 +46,7 @@ namespace geometrix {
 			point_segment_closest_point_and_param(p, pi, pj, t);
 			if (t > constants::zero<dimensionless_t>() && t < constants::one<dimensionless_t>())
 				return get_orientation(pi, pj, p, cmp);
-			else if (cmp.equals(t, constants::zero<dimensionless_t>()))
+			else if (t <= constants::zero<dimensionless_t>())
 			{
 				//! Closest point is a vertex i.
 				if (segIndex != 0)
-- 
2.43.0


From 719090ff0b8d94de62763e883f8012b3709cd280 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:17 +0000
Subject: [PATCH 51/71] fix: polyline_offset gives an arbitrary point at a
 vertex where the polyline goes straight on

---
 .../algorithm/point_sequence/polyline_offset.hpp     | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/geometrix/algorithm/point_sequence/polyline_offset.hpp b/geometrix/algorithm/point_sequence/polyline_offset.hpp
index 070a599..b467c57 100644
--- a/geometrix/algorithm/point_sequence/polyline_offset.hpp
+++ b/geometrix/algorithm/point_sequence/polyline_offset.hpp
@@ -326,8 +326,16 @@ namespace geometrix {
 					auto pOffsetD = construct<point_type>(D + vNormalCD);
 
 					point_type xPoint;
-					line_line_intersect(pOffsetA, pOffsetB, pOffsetC, pOffsetD, xPoint, cmp);
-					result.push_back(xPoint);
+					auto itype = line_line_intersect(pOffsetA, pOffsetB, pOffsetC, pOffsetD, xPoint, cmp);
+					if (itype == e_crossing)
+						result.push_back(xPoint);
+					else
+					{
+						//! The offset segments are parallel.
+						result.push_back(pOffsetB);
+						if (itype != e_overlapping)
+							result.push_back(pOffsetC);
+					}
 
 					A = C;
 					B = D;
-- 
2.43.0


From 3bce1882f4d7405397dab30450efc1378e6dc988 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:17 +0000
Subject: [PATCH 52/71] fix: copying or moving a doubly_connected_edge_list
 loses its connected components

---
 geometrix/algorithm/doubly_connected_edge_list.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/geometrix/algorithm/doubly_connected_edge_list.hpp b/geometrix/algorithm/doubly_connected_edge_list.hpp
index 37ce2f1..6550b54 100644
--- a/geometrix/algorithm/doubly_connected_edge_list.hpp
+++ b/geometrix/algorithm/doubly_connected_edge_list.hpp
@@ -79,6 +79,7 @@ namespace geometrix
 		doubly_connected_edge_list(const doubly_connected_edge_list& other)
 			: m_pointVertexMap(other.m_pointVertexMap)
 			, m_halfEdgeList(other.m_halfEdgeList)
+			, m_componentGraph(other.m_componentGraph)
 			, m_polygons(other.m_polygons)
 			, m_polylines(other.m_polylines)
 			, m_compare(other.m_compare)
@@ -87,6 +88,7 @@ namespace geometrix
 		doubly_connected_edge_list(doubly_connected_edge_list&& other)
 			: m_pointVertexMap(std::move(other.m_pointVertexMap))
 			, m_halfEdgeList(std::move(other.m_halfEdgeList))
+			, m_componentGraph(std::move(other.m_componentGraph))
 			, m_polygons(std::move(other.m_polygons))
 			, m_polylines(std::move(other.m_polylines))
 			, m_compare( other.m_compare)
@@ -226,6 +228,7 @@ namespace geometrix
 		{
 			m_pointVertexMap = std::move(other.m_pointVertexMap);
 			m_halfEdgeList = std::move(other.m_halfEdgeList);
+			m_componentGraph = std::move(other.m_componentGraph);
 			m_polygons = std::move(other.m_polygons);
 			m_polylines = std::move(other.m_polylines);
 			m_compare = other.m_compare;
@@ -236,6 +239,7 @@ namespace geometrix
 		{
 			m_pointVertexMap = other.m_pointVertexMap;
 			m_halfEdgeList = other.m_halfEdgeList;
+			m_componentGraph = other.m_componentGraph;
 			m_polygons = other.m_polygons;
 			m_polylines = other.m_polylines;
 			m_compare = other.m_compare;
-- 
2.43.0


From 40d893a25e88a06f96b8862dffc930d3907b7ae5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:17 +0000
Subject: [PATCH 53/71] fix: mesh_2d::get_random_position runs past the last
 triangle when the area fractions sum to less than one

---
 geometrix/algorithm/mesh_2d.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/geometrix/algorithm/mesh_2d.hpp b/geometrix/algorithm/mesh_2d.hpp
index bf3743d..b8f7123 100644
--- a/geometrix/algorithm/mesh_2d.hpp
+++ b/geometrix/algorithm/mesh_2d.hpp
@@ -198,6 +198,10 @@ namespace geometrix
                 last += r;
                 m_integral.push_back(last);
             }
+
+            //! The fractions sum to one up to rounding.
+            if (!m_integral.empty())
+                m_integral.back() = (std::max)(m_integral.back(), normalized_weight_t{ 1 });
         }
 
         //! Calculate a random interior position. Parameters rT, r1, and r2 should be uniformly distributed random numbers in the range of [0., 1.].
-- 
2.43.0


From bf6e280befa29f032ad49678bba220d941cbe145 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:17 +0000
Subject: [PATCH 54/71] fix: visible_vertices_mesh_search goes round an
 interior vertex of the mesh forever

---
 geometrix/algorithm/visible_vertices_mesh_search.hpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/geometrix/algorithm/visible_vertices_mesh_search.hpp b/geometrix/algorithm/visible_vertices_mesh_search.hpp
index 2f9751f..6f711d0 100644
--- a/geometrix/algorithm/visible_vertices_mesh_search.hpp
+++ b/geometrix/algorithm/visible_vertices_mesh_search.hpp
@@ -26,6 +26,8 @@
 #include <boost/optional.hpp>
 #include <boost/tuple/tuple.hpp>
 #include <boost/container/flat_set.hpp>
+#include <set>
+#include <tuple>
 
 #define GEOMETRIX_DEBUG_VISIBLE_VERTICES_MESH_SEARCH 0
 
@@ -169,6 +171,10 @@ namespace geometrix
 			segment2 nLo{ m_origin, m_origin + vecLo };
 			segment2 nHi{ m_origin, m_origin + vecHi };
 #endif			
+			//! The same cone is not followed through the same side again: one without width could go round a vertex forever.
+			if (!m_traversed.insert(std::make_tuple(item.to, next, get<0>(vecLo), get<1>(vecLo), get<0>(vecHi), get<1>(vecHi))).second)
+				return boost::none;
+
 			return edge_item( item.to, next, vecLo, vecHi );
 		}
 
@@ -180,6 +186,7 @@ namespace geometrix
 		const mesh_t& m_mesh;
 		std::size_t m_start;
 		std::vector<std::size_t> m_vertices;
+		std::set<std::tuple<std::size_t, std::size_t, coordinate_type, coordinate_type, coordinate_type, coordinate_type>> m_traversed;
 		comparison_policy m_cmp;
 	};
 	
-- 
2.43.0


From a40eddee02d7dbc8ae76405d240e113a03adf3aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:12 +0000
Subject: [PATCH 55/71] fix: assigning an expression over the assigned vector
 or point stores a mix of old and new elements

---
 geometrix/tensor/detail/numeric_sequence_n.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/geometrix/tensor/detail/numeric_sequence_n.hpp b/geometrix/tensor/detail/numeric_sequence_n.hpp
index 66f56ce..7f54a69 100644
--- a/geometrix/tensor/detail/numeric_sequence_n.hpp
+++ b/geometrix/tensor/detail/numeric_sequence_n.hpp
@@ -135,11 +135,14 @@ public:
     template <typename Expr>
     numeric_sequence& operator=( const Expr& e )
     {
+        //! Evaluate the whole expression first as it may refer to the elements of this sequence.
         //! Helper macro to build access traits code.
         #define GEOMETRIX_ASSIGN_ACCESS_EXPR_( z, i, e ) \
-            (*this)[i] = geometrix::get<i>( e );         \
+            values[i] = geometrix::get<i>( e );          \
         /***/
+        numeric_array values;
         BOOST_PP_REPEAT( DIMENSION, GEOMETRIX_ASSIGN_ACCESS_EXPR_, e )
+        m_sequence = values;
         return *this;
         #undef GEOMETRIX_ASSIGN_ACCESS_EXPR
     }
-- 
2.43.0


From 06c637bdcd9f441767f623af23fcba4df328b5f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:12 +0000
Subject: [PATCH 56/71] fix: += of an expression over the assigned vector sees
 the elements already updated

---
 geometrix/tensor/detail/numeric_sequence_n.hpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/geometrix/tensor/detail/numeric_sequence_n.hpp b/geometrix/tensor/detail/numeric_sequence_n.hpp
index 7f54a69..dcc6d01 100644
--- a/geometrix/tensor/detail/numeric_sequence_n.hpp
+++ b/geometrix/tensor/detail/numeric_sequence_n.hpp
@@ -154,7 +154,9 @@ protected:
     numeric_sequence& operator+= ( const Expr& p )
     {
         typedef boost::fusion::vector<numeric_array&, const Expr&> sequences;
-        boost::fusion::for_each( boost::fusion::zip_view<sequences>( sequences( m_sequence, p ) ), make_fused_procedure( boost::lambda::_1 += boost::lambda::_2 ) );
+        numeric_array values( m_sequence );//! The expression may refer to the elements of this sequence.
+        boost::fusion::for_each( boost::fusion::zip_view<sequences>( sequences( values, p ) ), make_fused_procedure( boost::lambda::_1 += boost::lambda::_2 ) );
+        m_sequence = values;
         return *this;
     }
 
@@ -164,7 +166,9 @@ protected:
     numeric_sequence& operator-= ( const Expr& p )
     {
         typedef boost::fusion::vector<numeric_array&, const Expr&> sequences;
-        boost::fusion::for_each( boost::fusion::zip_view<sequences>( sequences( m_sequence, p ) ), make_fused_procedure( boost::lambda::_1 -= boost::lambda::_2 ) );
+        numeric_array values( m_sequence );//! The expression may refer to the elements of this sequence.
+        boost::fusion::for_each( boost::fusion::zip_view<sequences>( sequences( values, p ) ), make_fused_procedure( boost::lambda::_1 -= boost::lambda::_2 ) );
+        m_sequence = values;
         return *this;
     }
     // numeric_sequence operator-(numeric_sequence, const numeric_sequence&) automatically
-- 
2.43.0


From 6a37355fd830ff9097cdb7d8a48673367980e033 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:12 +0000
Subject: [PATCH 57/71] fix: bisect of vectors of different lengths or of
 opposite directions does not halve the angle

---
 geometrix/arithmetic/vector/bisect.hpp | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/geometrix/arithmetic/vector/bisect.hpp b/geometrix/arithmetic/vector/bisect.hpp
index 5c0b31e..bf71aed 100644
--- a/geometrix/arithmetic/vector/bisect.hpp
+++ b/geometrix/arithmetic/vector/bisect.hpp
@@ -35,18 +35,18 @@ namespace geometrix {
 		auto nlo = normalize(lo);
 		auto nhi = normalize(hi);
 		auto dp = dot_product(nlo, nhi);
-		if (dp > constants::negative_one<decltype(dp)>() && dp < constants::one<decltype(dp)>()) 
+		auto orientation = get_orientation(lo, hi, direct_comparison_policy());
+		if (orientation != oriented_collinear && dp > constants::negative_one<decltype(dp)>() && dp < constants::one<decltype(dp)>()) 
 		{
 			auto one_half = constants::one_half<dimensionless_t>();
-			auto orientation = get_orientation(lo, hi, direct_comparison_policy());
 			if(orientation != oriented_right)
-				return normalize(one_half * (lo + hi));
-			return normalize(one_half * (-lo - hi));
+				return normalize(one_half * (nlo + nhi));
+			return normalize(one_half * (-nlo - nhi));
 		}
-		else if (dp == constants::negative_one<decltype(dp)>())
+		else if (dp < constants::zero<decltype(dp)>())
 			return right_normal(nhi);
 
-		return -hi;
+		return -nhi;
     }
 	
 	//! Find the bisect between two vectors whose winding (rotational) progression is counter-clockwise from lo to hi.
@@ -57,11 +57,13 @@ namespace geometrix {
 		GEOMETRIX_ASSERT(!is_antiparallel(lo, hi, direct_comparison_policy()));
         using dimensionless_t = typename dimensionless_type_of<Vector1>::type;
         auto one_half = constants::one_half<dimensionless_t>();
+		auto nlo = normalize(lo);
+		auto nhi = normalize(hi);
 		auto orientation = get_orientation(lo, hi, direct_comparison_policy());
 		if(orientation != oriented_right)
-	        return normalize(one_half * (lo + hi));
+	        return normalize(one_half * (nlo + nhi));
 		else
-	        return normalize(one_half * (-lo - hi));
+	        return normalize(one_half * (-nlo - nhi));
     }
 
 }//! namespace geometrix;
-- 
2.43.0


From 4adc9736ba682e8e3105a4c6348f0e1f8eae250c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:12 +0000
Subject: [PATCH 58/71] fix: a matrix times a scalar does not compile: the
 operands are swapped

---
 geometrix/algebra/functions/multiplication.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geometrix/algebra/functions/multiplication.hpp b/geometrix/algebra/functions/multiplication.hpp
index 6844684..816c698 100644
--- a/geometrix/algebra/functions/multiplication.hpp
+++ b/geometrix/algebra/functions/multiplication.hpp
@@ -193,7 +193,7 @@ namespace geometrix {
 
             result_type operator()(tag_t, const Left& l, const Right& r ) const
             {
-                return do_multiplies(get<Row, Column>( r ), get( l ));
+                return do_multiplies(get<Row, Column>( l ), get( r ));
             }
         };
     };
-- 
2.43.0


From b97bbe0de0269c1838e4e6b8d682cd3d5231b865 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:56 +0000
Subject: [PATCH 59/71] fix: the fraction tolerance is compared with an integer
 quotient for integers

---
 geometrix/utility/floating_point_comparison.hpp | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/geometrix/utility/floating_point_comparison.hpp b/geometrix/utility/floating_point_comparison.hpp
index a32546b..762c772 100644
--- a/geometrix/utility/floating_point_comparison.hpp
+++ b/geometrix/utility/floating_point_comparison.hpp
@@ -15,6 +15,7 @@
 #include <boost/units/unit.hpp>
 #include <geometrix/numeric/numeric_traits.hpp>
 #include <geometrix/numeric/constants.hpp>
+#include <type_traits>
 
 namespace geometrix {
     
@@ -32,7 +33,10 @@ namespace result_of {
     template <typename NumericType1, typename NumericType2>
     struct safe_division
     {
-        typedef BOOST_TYPEOF_TPL( NumericType1() / NumericType2() ) type;
+        typedef BOOST_TYPEOF_TPL( NumericType1() / NumericType2() ) quotient_type;
+
+        //! The quotient of integers is not an integer.
+        typedef typename std::conditional<std::is_integral<quotient_type>::value, double, quotient_type>::type type;
     };
 }
 template <typename NumericType1, typename NumericType2>
@@ -40,12 +44,14 @@ inline typename result_of::safe_division<NumericType1, NumericType2>::type safe_
 {
     typedef typename result_of::safe_division<NumericType1, NumericType2>::type result_type;
 
+    typedef std::numeric_limits<typename std::conditional<std::is_integral<NumericType2>::value, double, NumericType2>::type> limits;
+
     NumericType1 one1 = constants::one<NumericType1>();
     NumericType2 one2 = constants::one<NumericType2>();
 
     // Avoid overflow.
     if( rhs < one2 && 
-        lhs * one1 > rhs * (std::numeric_limits<NumericType2>::max)() )
+        lhs * one1 > rhs * (limits::max)() )
     {
         return (std::numeric_limits<result_type>::max)();
     }
@@ -53,12 +59,14 @@ inline typename result_of::safe_division<NumericType1, NumericType2>::type safe_
     // Avoid underflow.
     if( lhs == constants::zero< NumericType1 >() ||
         ( rhs > one2 &&
-          lhs * one1 < rhs * (std::numeric_limits<NumericType2>::min)() ) )
+          lhs * one1 < rhs * (limits::min)() ) )
     {
         return constants::zero<result_type>();
     }
 
-    return lhs/rhs;
+    typedef typename std::conditional<std::is_integral<NumericType1>::value && std::is_integral<NumericType2>::value, double, NumericType1>::type dividend_type;
+
+    return static_cast<dividend_type>(lhs)/rhs;
 }
 
 //! \brief Check if a number equals zero to within a tolerance range (i.e. 0 +/- tolerance).
-- 
2.43.0


From 933056705d4c5d220fe26ea77e8d7049effcd867 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:56 +0000
Subject: [PATCH 60/71] fix: fixed_point: conversion to a floating point type
 drops the fraction

---
 geometrix/numeric/fixed_point_traits.hpp | 27 +++++++++++++++++-------
 1 file changed, 19 insertions(+), 8 deletions(-)

diff --git a/geometrix/numeric/fixed_point_traits.hpp b/geometrix/numeric/fixed_point_traits.hpp
index 52f30ab..061afd7 100644
--- a/geometrix/numeric/fixed_point_traits.hpp
+++ b/geometrix/numeric/fixed_point_traits.hpp
@@ -33,6 +33,17 @@
 
 namespace geometrix {
 
+    namespace detail
+    {
+        //! Divide in the type of the result when it is a floating point type.
+        template <typename T, typename B, typename Scale>
+        BOOST_CONSTEXPR T scale_quotient( B v, Scale s )
+        {
+            using dividend_type = typename std::conditional<std::is_floating_point<T>::value, T, B>::type;
+            return boost::numeric_cast<T>( static_cast<dividend_type>( v ) / s );
+        }
+    }//! namespace detail;
+
     template <int Radix, int Exp>
     struct generic_compile_time_scale_policy
     {
@@ -52,7 +63,7 @@ namespace geometrix {
         template <typename T, typename B>
         BOOST_CONSTEXPR T scale_down( B v ) const
         {
-            return boost::numeric_cast<T>( widen_cast( v ) / power_c<Radix, Exp>::value );
+            return detail::scale_quotient<T>( widen_cast( v ), power_c<Radix, Exp>::value );
         }
 
         //! Scale from T to B by a factor of Radix^scale.
@@ -66,7 +77,7 @@ namespace geometrix {
         template <typename T, typename B>
         BOOST_CONSTEXPR T scale_down( B v, int ) const
         {
-            return boost::numeric_cast<T>( widen_cast( v ) / integral_pow( Radix, Exp ) );
+            return detail::scale_quotient<T>( widen_cast( v ), integral_pow( Radix, Exp ) );
         }
     };
 
@@ -92,7 +103,7 @@ namespace geometrix {
         template <typename T, typename B>
         BOOST_CONSTEXPR T scale_down( B v ) const
         {
-            return boost::numeric_cast<T>( widen_cast( v ) / integral_pow( Radix, m_scale ) );
+            return detail::scale_quotient<T>( widen_cast( v ), integral_pow( Radix, m_scale ) );
         }
 
         //! Scale from T to B by a factor of Radix^scale.
@@ -106,7 +117,7 @@ namespace geometrix {
         template <typename T, typename B>
         BOOST_CONSTEXPR T scale_down( B v, int Exp ) const
         {
-            return boost::numeric_cast<T>( widen_cast( v ) / integral_pow( Radix, Exp ) );
+            return detail::scale_quotient<T>( widen_cast( v ), integral_pow( Radix, Exp ) );
         }
 
         int m_scale;
@@ -142,7 +153,7 @@ namespace geometrix {
         template <typename T, typename B>
         BOOST_CONSTEXPR typename boost::enable_if< boost::is_float<T>, T >::type scale_down( B v ) const
         {
-            return boost::numeric_cast<T>( widen_cast( v ) / power_c<2, Exp>::value );
+            return detail::scale_quotient<T>( widen_cast( v ), power_c<2, Exp>::value );
         }
 
         //! Scale from T to B by a factor of Radix^scale.
@@ -168,7 +179,7 @@ namespace geometrix {
         template <typename T, typename B>
         BOOST_CONSTEXPR typename boost::enable_if< boost::is_float<T>, T >::type scale_down( B v, int) const
         {
-            return boost::numeric_cast<T>( widen_cast( v ) / power_c<2, Exp>::value );
+            return detail::scale_quotient<T>( widen_cast( v ), power_c<2, Exp>::value );
         }
     };
 
@@ -205,7 +216,7 @@ namespace geometrix {
         template <typename T, typename B>
         BOOST_CONSTEXPR typename boost::enable_if< boost::is_float<T>, T >::type scale_down( B v ) const
         {
-            return boost::numeric_cast<T>( widen_cast( v ) / m_scale );
+            return detail::scale_quotient<T>( widen_cast( v ), integral_pow( 2, m_scale ) );
         }
 
         //! Scale from T to B by a factor of Radix^scale.
@@ -232,7 +243,7 @@ namespace geometrix {
         template <typename T, typename B>
         BOOST_CONSTEXPR typename boost::enable_if< boost::is_float<T>, T >::type scale_down( B v, int Exp ) const
         {
-            return boost::numeric_cast<T>( widen_cast( v ) / Exp );
+            return detail::scale_quotient<T>( widen_cast( v ), integral_pow( 2, Exp ) );
         }
 
         int m_scale;
-- 
2.43.0


From 4688acb22628371ad5adc101a50218e13dbdccb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:56 +0000
Subject: [PATCH 61/71] fix: fixed_point: a value converted to more digits is
 changed by directed rounding

---
 geometrix/numeric/detail/fixed_point.hpp | 40 ++++--------------------
 geometrix/numeric/fixed_point_traits.hpp |  8 ++---
 2 files changed, 10 insertions(+), 38 deletions(-)

diff --git a/geometrix/numeric/detail/fixed_point.hpp b/geometrix/numeric/detail/fixed_point.hpp
index 6c90a19..0a349d7 100644
--- a/geometrix/numeric/detail/fixed_point.hpp
+++ b/geometrix/numeric/detail/fixed_point.hpp
@@ -103,7 +103,7 @@ namespace geometrix {
             }
         };
 
-        //! Initialize where both are compile time scales with same radix but different precision.
+        //! Initialize where both are compile time scales with same radix and no precision is lost.
         template <typename ToTraits, typename FromTraits>
         struct fixed_point_copy_ctor_helper
         <
@@ -113,8 +113,9 @@ namespace geometrix {
             <
                 geometrix::is_static< typename ToTraits::scale_policy >::value &&
                 geometrix::is_static< typename FromTraits::scale_policy >::value &&
-                boost::is_same< typename ToTraits::scale_policy, typename FromTraits::scale_policy >::value == false &&
-                ToTraits::radix_type::value == FromTraits::radix_type::value
+                boost::is_same< ToTraits, FromTraits >::value == false &&
+                int( ToTraits::scale_policy::radix_type::value ) == int( FromTraits::scale_policy::radix_type::value ) &&
+                ( int( ToTraits::scale_policy::exp_type::value ) >= int( FromTraits::scale_policy::exp_type::value ) )
             >::type
         >
         {
@@ -122,41 +123,12 @@ namespace geometrix {
                 : m_scale( scalePolicy )
             {}
 
-            template <int a, int b>
-            struct abs_diff
-                : boost::mpl::if_c
-                  <
-                      (a > b)
-                    , boost::mpl::int_<a-b>
-                    , boost::mpl::int_<b-a>
-                  >::type
-            {};
-
-            BOOST_CONSTEXPR typename ToTraits::format_type scale( const fixed_point<FromTraits>& other, boost::mpl::bool_<true>&, boost::mpl::bool_<true>& ) const
+            BOOST_CONSTEXPR typename ToTraits::format_type operator()( const fixed_point<FromTraits>& other ) const
             {
                 return m_scale.template scale_up
                     <
                         typename ToTraits::format_type
-                    >( other.m_value, abs_diff<FromTraits::scale_policy::scale::value, ToTraits::scale_policy::scale::value>::value  );
-            }
-
-            BOOST_CONSTEXPR typename ToTraits::format_type scale( const fixed_point<FromTraits>& other, boost::mpl::bool_<false>&, boost::mpl::bool_<true>& ) const
-            {
-                return m_scale.template scale_down
-                    <
-                        typename ToTraits::format_type
-                    >( other.m_value, abs_diff<ToTraits::scale_policy::scale::value, FromTraits::scale_policy::scale::value>::value );
-            }
-
-            BOOST_CONSTEXPR typename ToTraits::format_type operator()( const fixed_point<FromTraits>& other ) const
-            {
-                return scale( other
-                    , boost::mpl::greater
-                      <
-                          typename ToTraits::scale_policy::scale
-                        , typename FromTraits::scale_policy::scale
-                      >::type()
-                    , geometrix::is_static<typename ToTraits::scale_policy>::type() );
+                    >( other.get_scaled_value(), ToTraits::scale_policy::exp_type::value - FromTraits::scale_policy::exp_type::value );
             }
 
             const typename ToTraits::scale_policy& m_scale;
diff --git a/geometrix/numeric/fixed_point_traits.hpp b/geometrix/numeric/fixed_point_traits.hpp
index 061afd7..04c69fc 100644
--- a/geometrix/numeric/fixed_point_traits.hpp
+++ b/geometrix/numeric/fixed_point_traits.hpp
@@ -68,16 +68,16 @@ namespace geometrix {
 
         //! Scale from T to B by a factor of Radix^scale.
         template <typename B, typename T>
-        BOOST_CONSTEXPR B scale_up( T v, int ) const
+        BOOST_CONSTEXPR B scale_up( T v, int scale ) const
         {
-            return boost::numeric_cast<B>( widen_cast( v ) * integral_pow( Radix, Exp ) );
+            return boost::numeric_cast<B>( widen_cast( v ) * integral_pow( Radix, scale ) );
         }
 
         //! Reverse the scale up operation.
         template <typename T, typename B>
-        BOOST_CONSTEXPR T scale_down( B v, int ) const
+        BOOST_CONSTEXPR T scale_down( B v, int scale ) const
         {
-            return detail::scale_quotient<T>( widen_cast( v ), integral_pow( Radix, Exp ) );
+            return detail::scale_quotient<T>( widen_cast( v ), integral_pow( Radix, scale ) );
         }
     };
 
-- 
2.43.0


From 1cacb74c5d725c5f1387ed5a270a83e7f5f9cfdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:56 +0000
Subject: [PATCH 62/71] fix: sphere_polyline_intersect does not compile:
 typename is missing

---
 .../algorithm/intersection/sphere_polyline_intersection.hpp     | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geometrix/algorithm/intersection/sphere_polyline_intersection.hpp b/geometrix/algorithm/intersection/sphere_polyline_intersection.hpp
index fd5a134..b465321 100644
--- a/geometrix/algorithm/intersection/sphere_polyline_intersection.hpp
+++ b/geometrix/algorithm/intersection/sphere_polyline_intersection.hpp
@@ -26,7 +26,7 @@ inline bool sphere_polyline_intersect( const Sphere& s, const Polyline& pline, V
     BOOST_CONCEPT_ASSERT((PointSequenceConcept<Polyline>));
     BOOST_CONCEPT_ASSERT((NumberComparisonPolicyConcept<NumberComparisonPolicy>));
     using access = point_sequence_traits<Polyline>;
-    using length_t = arithmetic_type_of<typename access::point_type>::type;
+    using length_t = typename arithmetic_type_of<typename access::point_type>::type;
     using dimensionless_t = decltype(std::declval<length_t>() / std::declval<length_t>());
     using point_type = point<length_t, 2>;
 
-- 
2.43.0


From 962f90cadee4c818beac25bcc4425337a2db94cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:56 +0000
Subject: [PATCH 63/71] fix: a tagged quantity can be recognised as a number

---
 geometrix/utility/tagged_quantity.hpp | 2 --
 1 file changed, 2 deletions(-)

diff --git a/geometrix/utility/tagged_quantity.hpp b/geometrix/utility/tagged_quantity.hpp
index 5feed06..324aa87 100644
--- a/geometrix/utility/tagged_quantity.hpp
+++ b/geometrix/utility/tagged_quantity.hpp
@@ -131,8 +131,6 @@ struct construction_policy< const tagged_quantity< Tag, Numeric > >
 };
 
 //! Define numeric traits for the coordinate type.
-template <typename Tag, typename Numeric>
-struct is_numeric< tagged_quantity< Tag, Numeric > > : boost::true_type {};
 
 template <typename Tag, typename Numeric>
 struct numeric_traits< tagged_quantity< Tag, Numeric > >
-- 
2.43.0


From bd9117345c4c9f4f731455da99db473085313cd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:17 +0000
Subject: [PATCH 64/71] fix: of two numeric types the wider one is used in
 arithmetic

---
 geometrix/arithmetic/arithmetic_promotion_policy.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geometrix/arithmetic/arithmetic_promotion_policy.hpp b/geometrix/arithmetic/arithmetic_promotion_policy.hpp
index 66690d6..ba8d487 100644
--- a/geometrix/arithmetic/arithmetic_promotion_policy.hpp
+++ b/geometrix/arithmetic/arithmetic_promotion_policy.hpp
@@ -62,7 +62,7 @@ namespace geometrix {
     struct select_arithmetic_type_from_2
         : boost::mpl::if_
             < 
-                numeric_width_compare< T1, T2 > 
+                numeric_width_compare< T2, T1 > 
               , T1
               , T2
             >
-- 
2.43.0


From 0685bd08a239ed1fa17121d45232c8d55aaf9805 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:09 +0000
Subject: [PATCH 65/71] fix: visible_vertices_mesh_search keeps looking through
 a wide cone after a side seen edge-on

---
 geometrix/algorithm/visible_vertices_mesh_search.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/geometrix/algorithm/visible_vertices_mesh_search.hpp b/geometrix/algorithm/visible_vertices_mesh_search.hpp
index 6f711d0..9918901 100644
--- a/geometrix/algorithm/visible_vertices_mesh_search.hpp
+++ b/geometrix/algorithm/visible_vertices_mesh_search.hpp
@@ -154,8 +154,8 @@ namespace geometrix
 				
 				if (!allAround)
 				{
-					vecLo = is_vector_between(item.lo, item.hi, vecLo, false, cmp) ? vecLo : item.lo;
-					vecHi = is_vector_between(item.lo, item.hi, vecHi, false, cmp) ? vecHi : item.hi;
+					vecLo = is_vector_between(item.lo, item.hi, vecLo, true, cmp) ? vecLo : item.lo;
+					vecHi = is_vector_between(item.lo, item.hi, vecHi, true, cmp) ? vecHi : item.hi;
 				}
 
 				if (get_orientation(vecHi, vecLo, cmp) == geometrix::oriented_left)
-- 
2.43.0


From ecf6b6f1d0e0034cd165ada4617347fbde7bf20f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:18 +0000
Subject: [PATCH 66/71] fix: solid_leaf_bsp_tree loses the edge a ray hits
 where two splitting planes meet on it

---
 geometrix/algorithm/solid_leaf_bsp_tree.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/geometrix/algorithm/solid_leaf_bsp_tree.hpp b/geometrix/algorithm/solid_leaf_bsp_tree.hpp
index 9752169..4874c34 100644
--- a/geometrix/algorithm/solid_leaf_bsp_tree.hpp
+++ b/geometrix/algorithm/solid_leaf_bsp_tree.hpp
@@ -680,7 +680,12 @@ namespace geometrix {
                                 tmax = t;
                             }
                             else
+                            {
                                 nearIndex = 1 ^ nearIndex;//! 0 <= t < tmin, visit far side
+                                //! A plane crossed just before tmin within tolerance may hold the simplex that is hit there.
+                                if (cmp.equals(t, tmin))
+                                    minIndices.insert(m_indices[node].begin(), m_indices[node].end());
+                            }
                         }
                     }
                     node = nearIndex ? m_back[node] : m_front[node];
-- 
2.43.0


From 0aa1ca66a190f2a9fd7240f6364b4dd45aa79dcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:29:17 +0000
Subject: [PATCH 67/71] fix: slerp did not compile, its result type lacked
 typename

---
 geometrix/arithmetic/vector/slerp.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geometrix/arithmetic/vector/slerp.hpp b/geometrix/arithmetic/vector/slerp.hpp
index 6f4292b..4d0d68a 100644
--- a/geometrix/arithmetic/vector/slerp.hpp
+++ b/geometrix/arithmetic/vector/slerp.hpp
@@ -20,7 +20,7 @@ namespace geometrix {
         template <typename Vector1, typename Vector2, typename Scalar, typename EnableIf = void>
         struct slerp
         {
-            using dimensionless_t = dimensionless_type_of<Vector1>::type;
+            using dimensionless_t = typename dimensionless_type_of<Vector1>::type;
             using type = vector<dimensionless_t, dimension_of<Vector1>::value>;
         };
     }//namespace result_of;
-- 
2.43.0


From 9b14571bd16aa7b04ae261d63c10f996c2b74381 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:30:39 +0000
Subject: [PATCH 68/71] fix: plane could not be constructed, it called a
 cross_product that exists nowhere

---
 geometrix/primitive/plane.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/geometrix/primitive/plane.hpp b/geometrix/primitive/plane.hpp
index 3381c57..803b0f3 100644
--- a/geometrix/primitive/plane.hpp
+++ b/geometrix/primitive/plane.hpp
@@ -37,7 +37,7 @@ public:
         : m_a( a )
         , m_u( normalize(u) )
         , m_v( normalize(v) )
-        , m_n( normalize( cross_product( m_u, m_v ) ) )
+        , m_n( normalize( m_u ^ m_v ) )
         , m_d( scalar_projection( as_vector(m_a), m_n ) )
     {}
 
@@ -45,7 +45,7 @@ public:
         : m_a( a )
         , m_u( normalize(b-a) )
         , m_v( normalize(c-a) )
-        , m_n( normalize( cross_product( m_u, m_v ) ) )
+        , m_n( normalize( m_u ^ m_v ) )
         , m_d( scalar_projection( as_vector(m_a), m_n ) )
     {}
 
-- 
2.43.0


From 663ea5326f0d8ff1de8d9830b3e9194ffd17c708 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:01:35 +0000
Subject: [PATCH 69/71] fix: is_vector_between compares a product of two areas
 and loses the side of short vectors

---
 geometrix/utility/utilities.hpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/geometrix/utility/utilities.hpp b/geometrix/utility/utilities.hpp
index 7cfa733..9706449 100644
--- a/geometrix/utility/utilities.hpp
+++ b/geometrix/utility/utilities.hpp
@@ -241,8 +241,11 @@ namespace geometrix {
         if (cmp.equals(detab, constants::zero<decltype(detab)>()) && cmp.greater_than_or_equal(dot_product(b, a), constants::zero<decltype(dot_product(b,a))>()))
             return false;
 
-        //! If detab and detac have the same sign, then b and c are on the same side of a and can be compared directly.
-        if (cmp.greater_than_or_equal(detac * detab, constants::zero<decltype(detac*detab)>()))
+        //! If detab and detac do not have opposite signs, then b and c are on the same side of a and can be compared directly.
+        //! Their product is not compared: it would fall below an absolute tolerance for short vectors.
+        const bool straddle = cmp.greater_than(detac, constants::zero<decltype(detac)>()) ? cmp.less_than(detab, constants::zero<decltype(detab)>())
+            : cmp.less_than(detac, constants::zero<decltype(detac)>()) && cmp.greater_than(detab, constants::zero<decltype(detab)>());
+        if (!straddle)
         {
             //! Both are on same side of a; compare to each other.
             return cmp.greater_than(detcb, constants::zero<decltype(detcb)>());
-- 
2.43.0


From 52cd94c26d190444c4ad12c4fb3afaad06057fdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:53:42 +0000
Subject: [PATCH 70/71] fix: inverse of an integer matrix keeps the fractions

---
 geometrix/algebra/functions/inverse.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geometrix/algebra/functions/inverse.hpp b/geometrix/algebra/functions/inverse.hpp
index bfca0c4..765fdc2 100644
--- a/geometrix/algebra/functions/inverse.hpp
+++ b/geometrix/algebra/functions/inverse.hpp
@@ -38,7 +38,7 @@ namespace geometrix {
         {            
             typedef geometrix::tag::inverse tag;
         
-            typedef typename result_of::determinant<T>::type result_type;
+            typedef typename result_of::inverse_at_index<Row, Column, T>::type result_type;
 
             result_type operator()(tag, const T& a) const
             {            
-- 
2.43.0


From d1df381fb013f246df2f55a1174837e3275b58a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:53:42 +0000
Subject: [PATCH 71/71] fix: point_point_distance counts every coordinate in
 five and more dimensions

---
 geometrix/algorithm/distance/point_point_distance.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geometrix/algorithm/distance/point_point_distance.hpp b/geometrix/algorithm/distance/point_point_distance.hpp
index f738efa..c3ddf69 100644
--- a/geometrix/algorithm/distance/point_point_distance.hpp
+++ b/geometrix/algorithm/distance/point_point_distance.hpp
@@ -53,7 +53,7 @@ namespace geometrix {
 
             static result_type eval(const Point1& v1, const Point2& v2)
             {
-                BOOST_AUTO(a, get<Index - 1>(v2) - get<Index - 1>(v1));
+                BOOST_AUTO(a, get<Index>(v2) - get<Index>(v1));
                 return a * a + distance_sqrd<Point1, Point2, Index - 1>::eval(v1, v2);
             }
         };
-- 
2.43.0

