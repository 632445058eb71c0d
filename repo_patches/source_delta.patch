From 2ea294f38871e743701c9bcaecd333e95b63b151 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:16 +0000
Subject: [PATCH 01/48] fix: open list ignores every position outside the grid

A negative or too large x with a matching y aliased another cell, because only the combined index was checked.
---
 src/a_star/OpenList.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/a_star/OpenList.cpp b/src/a_star/OpenList.cpp
index 5bfb68e..8879d01 100644
--- a/src/a_star/OpenList.cpp
+++ b/src/a_star/OpenList.cpp
@@ -59,7 +59,7 @@ void OpenList::prepareNewSearch() {
 void OpenList::addNode(waypoint_t position, double distance, double prediction, Node* parent) {
 	//cout << "Add node: " << node->toString() << endl;
 	int positionIndex = position.x + position.y * mMapWidth;
-	if (positionIndex >= mNodesCount || positionIndex < 0) {
+	if (position.x < 0 || position.x >= mMapWidth || position.y < 0 || position.y >= mMapHeight) {
 		cout << "OpenList.cpp: positionIndex is out of range. This should never happen." << endl;
 		cout << "Position x = " << position.x <<
 				" Position y = " << position.y <<
-- 
2.43.0


From 4a706eb2e567c06ba030267402e471f778db0a98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:39 +0000
Subject: [PATCH 02/48] fix: points left of or below a grid map are outside of
 it

point2cell truncated towards zero, so that points up to one cell left of or below the origin fell into the
first column or row, and isInMap(double, double) had no lower bound at all.
---
 include/cslibs_path_planning/common/SimpleGridMap2d.h | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/include/cslibs_path_planning/common/SimpleGridMap2d.h b/include/cslibs_path_planning/common/SimpleGridMap2d.h
index 5ccccf0..392420c 100644
--- a/include/cslibs_path_planning/common/SimpleGridMap2d.h
+++ b/include/cslibs_path_planning/common/SimpleGridMap2d.h
@@ -8,6 +8,7 @@
 #define SIMPLEGRIDMAP2D_H
 
 // C/C++
+#include <cmath>
 #include <stdint.h>
 #include <vector>
 
@@ -146,8 +147,8 @@ public:
     }
 
     bool point2cell( const double px, const double py, unsigned int& x, unsigned int& y ) const {
-        x = (unsigned int)((px - origin_.x)/res_);
-        y = (unsigned int)((py - origin_.y)/res_);
+        x = (unsigned int)(int)std::floor((px - origin_.x)/res_);
+        y = (unsigned int)(int)std::floor((py - origin_.y)/res_);
 
         if ( !isInMap( (int)x, (int)y ))
             return false;
@@ -157,7 +158,7 @@ public:
         x = (px - origin_.x)/res_;
         y = (py - origin_.y)/res_;
 
-        if ( !isInMap( (int)x, (int)y ))
+        if ( !isInMap( (int)std::floor(x), (int)std::floor(y) ))
             return false;
         return true;
     }
@@ -176,7 +177,8 @@ public:
         { return !(x < 0 || y < 0 || x >= (int)width_ || y >= (int)height_); }
 
     bool isInMap( const double x, const double y ) const
-        { return (x - origin_.x)/res_ < width_ && (y - origin_.y)/res_ < height_; }
+        { return x >= origin_.x && y >= origin_.y
+                && (x - origin_.x)/res_ < width_ && (y - origin_.y)/res_ < height_; }
 
     unsigned char* getData()
     {
-- 
2.43.0


From 2416daec956f2f68ffbfc30e1c233613dcf49d81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:51 +0000
Subject: [PATCH 03/48] fix: rotated maps convert points outside the map like
 their cells

isInMap(double, double) ignored origin and resolution, point2cell truncated towards zero, and the sub-pixel
conversion was inherited from the unrotated map.
---
 .../common/RotatedGridMap2d.h                 | 26 ++++++++++---------
 1 file changed, 14 insertions(+), 12 deletions(-)

diff --git a/include/cslibs_path_planning/common/RotatedGridMap2d.h b/include/cslibs_path_planning/common/RotatedGridMap2d.h
index 2b64e1a..8619f87 100644
--- a/include/cslibs_path_planning/common/RotatedGridMap2d.h
+++ b/include/cslibs_path_planning/common/RotatedGridMap2d.h
@@ -78,14 +78,24 @@ public:
         double rx = c * nx - s * ny;
         double ry = s * nx + c * ny;
 
-        x = (rx - origin_.x)/res_;
-        y = (ry - origin_.y)/res_;
+        x = (unsigned int)(int)std::floor((rx - origin_.x)/res_);
+        y = (unsigned int)(int)std::floor((ry - origin_.y)/res_);
 
         if ( !isInMap( (int)x, (int)y ))
             return false;
         return true;
     }
 
+    bool point2cellSubPixel( const double px, const double py, double& x, double& y ) const {
+        double c = std::cos(-yaw_);
+        double s = std::sin(-yaw_);
+
+        x = (c * px - s * py - origin_.x)/res_;
+        y = (s * px + c * py - origin_.y)/res_;
+
+        return isInMap( (int)std::floor(x), (int)std::floor(y) );
+    }
+
     void cell2point( const unsigned int x, const unsigned int y, double& px, double& py ) const {
         double nx = res_*(double)(x+0.5);
         double ny = res_*(double)(y+0.5);
@@ -119,16 +129,8 @@ public:
     }
    
     bool isInMap( const double x, const double y ) const {
-        double c = std::cos(-yaw_);
-        double s = std::sin(-yaw_);
-       
-        double nx = x;// - origin_.x;
-        double ny = y;// - origin_.y;
-        
-        int px = c * nx - s * ny;
-        int py = s * nx + c * ny;
-
-        return px >= 0 && py >= 0 && px < (int) width_ && py < (int) height_;
+        unsigned int cx, cy;
+        return point2cell( x, y, cx, cy );
     }
 
     virtual double getRotation() const 
-- 
2.43.0


From edcff84f51c1196e1b2c553a69ca2bf1d8e89198 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:51 +0000
Subject: [PATCH 04/48] fix: map areas visit their first cell and do not read
 behind their last one

next() advanced before the first cell was handed out, so iterating an area skipped its first cell and ended
with a read past the end of the cell list.
---
 include/cslibs_path_planning/common/GridMap2d.h | 10 ++++++----
 src/common/GridMap2d.cpp                        |  6 +++---
 2 files changed, 9 insertions(+), 7 deletions(-)

diff --git a/include/cslibs_path_planning/common/GridMap2d.h b/include/cslibs_path_planning/common/GridMap2d.h
index c4caceb..75af1da 100644
--- a/include/cslibs_path_planning/common/GridMap2d.h
+++ b/include/cslibs_path_planning/common/GridMap2d.h
@@ -292,10 +292,11 @@ public:
     /* Inherited from MapArea2d */
 
     virtual void begin()
-        { counter_ = 0; }
+        { counter_ = (std::size_t)-1; }
 
     virtual bool next() {
-        if ( counter_ < cells_.size()) {
+        // begin() points in front of the first cell
+        if ( counter_ + 1 < cells_.size()) {
             ++counter_;
             return true;
         }
@@ -421,10 +422,11 @@ public:
     /* Inherited from MapArea2d */
 
     virtual void begin()
-        { counter_ = 0; }
+        { counter_ = (std::size_t)-1; }
 
     virtual bool next() {
-        if ( counter_ < cells_.size()) {
+        // begin() points in front of the first cell
+        if ( counter_ + 1 < cells_.size()) {
             ++counter_;
             return true;
         }
diff --git a/src/common/GridMap2d.cpp b/src/common/GridMap2d.cpp
index 481acda..cb5bd5c 100644
--- a/src/common/GridMap2d.cpp
+++ b/src/common/GridMap2d.cpp
@@ -135,7 +135,7 @@ void CircleArea::init( const Point2d &center,
                   const GridMap2d *map ) {
 
     cells_.clear();
-    counter_ = 0;
+    CircleArea::begin();
 
     // The center need to be on the map and circle radius > 0
     unsigned int x0, y0;
@@ -218,8 +218,7 @@ void CircleBuffer::init( const Point2d &center,
 ///////////////////////////////////////////////////////////////////////////////
 
 LineArea::LineArea( const Point2d &start, const Point2d &end, const GridMap2d *map )
-    : counter_( 0 ),
-      value_( 0 )
+    : value_( 0 )
 {
     set( start, end, map );
 }
@@ -227,6 +226,7 @@ LineArea::LineArea( const Point2d &start, const Point2d &end, const GridMap2d *m
 void LineArea::set( const Point2d &start, const Point2d &end, const GridMap2d *map )
 {
     cells_.clear();
+    begin();
 
     // Get cell coordinates
     int x0, y0, x1, y1;
-- 
2.43.0


From 2829b7a0c7dbd65fcc2fd7e3569313826f7b966d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:40 +0000
Subject: [PATCH 05/48] fix: searches throw the documented exceptions for an
 invalid start or goal

The occupied flag was never set, the lookup that throws was outside of the try block, and the goal check
looked at the start set, so none of the four exceptions was ever thrown.
---
 .../generic/SearchAlgorithm.hpp               | 29 ++++++++++++++++---
 1 file changed, 25 insertions(+), 4 deletions(-)

diff --git a/include/cslibs_path_planning/generic/SearchAlgorithm.hpp b/include/cslibs_path_planning/generic/SearchAlgorithm.hpp
index 35c1668..0b0ce53 100644
--- a/include/cslibs_path_planning/generic/SearchAlgorithm.hpp
+++ b/include/cslibs_path_planning/generic/SearchAlgorithm.hpp
@@ -464,7 +464,12 @@ protected:
     {
         bool outside = false;
         bool occupied = false;
-        auto start_poses = NodeT::getPoses(map_, pose);
+        std::vector<NodeT*> start_poses;
+        try {
+            start_poses = NodeT::getPoses(map_, pose);
+        } catch(const OutsideMapException& e) {
+            outside = true;
+        }
         for(NodeT* s : start_poses) {
             try {
                 if(!map_.isOccupied(s)) {
@@ -475,6 +480,8 @@ protected:
 
                     open.add(s);
                     start.insert(s);
+                } else {
+                    occupied = true;
                 }
 
             } catch(const OutsideMapException& e) {
@@ -496,7 +503,12 @@ protected:
     {
         bool outside = false;
         bool occupied = false;
-        auto start_poses = NodeT::getPoses(map_, node);
+        std::vector<NodeT*> start_poses;
+        try {
+            start_poses = NodeT::getPoses(map_, node);
+        } catch(const OutsideMapException& e) {
+            outside = true;
+        }
         for(NodeT* s : start_poses) {
             try {
                 if(!map_.isOccupied(s)) {
@@ -509,6 +521,8 @@ protected:
 
                     open.add(s);
                     start.insert(s);
+                } else {
+                    occupied = true;
                 }
 
             } catch(const OutsideMapException& e) {
@@ -545,7 +559,12 @@ protected:
 
         bool outside = false;
         bool occupied = false;
-        auto goal_poses = NodeT::getPoses(map_, pose);
+        std::vector<NodeT*> goal_poses;
+        try {
+            goal_poses = NodeT::getPoses(map_, pose);
+        } catch(const OutsideMapException& e) {
+            outside = true;
+        }
         for(NodeT* g : goal_poses) {
             try {
                 if(!map_.isOccupied(g)) {
@@ -553,6 +572,8 @@ protected:
                     g->theta = pose.theta;
 
                     goal.insert(g);
+                } else {
+                    occupied = true;
                 }
 
             } catch(const OutsideMapException& e) {
@@ -560,7 +581,7 @@ protected:
             }
         }
 
-        if(start.empty()) {
+        if(goal.empty()) {
             if(occupied) {
                 throw GoalNotFreeException();
             } else if(outside) {
-- 
2.43.0


From e1f9e1a4670ea7b387823641cf931a34f4eb12ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:56 +0000
Subject: [PATCH 06/48] fix: repeated searches do not see the costs and marks
 of earlier ones

A second findPath on the same map found all cells closed at their old costs and reported that there is no
path; after a change of the map size the open list still referred to the released nodes.
---
 .../generic/SearchAlgorithm.hpp                | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/include/cslibs_path_planning/generic/SearchAlgorithm.hpp b/include/cslibs_path_planning/generic/SearchAlgorithm.hpp
index 0b0ce53..739cf31 100644
--- a/include/cslibs_path_planning/generic/SearchAlgorithm.hpp
+++ b/include/cslibs_path_planning/generic/SearchAlgorithm.hpp
@@ -125,11 +125,14 @@ public:
 
 public:
     GenericSearchAlgorithm()
-        : heuristic_goal(NULL), has_cost_(false), expansions(0), multi_expansions(0), touched(0), updates(0), time_limit_(-1.0)
+        : heuristic_goal(NULL), has_cost_(false), expansions(0), multi_expansions(0), touched(0), updates(0), time_limit_(-1.0), map_used_(false)
     {}
 
     virtual void setMap(const MapT* map) {
+        // the nodes of the old map may be released
+        open.clear();
         map_.setMap(map);
+        map_used_ = false;
         NeighborhoodType::setResolution(map->getResolution());
     }
 
@@ -357,7 +360,7 @@ protected:
 
 
     template <class GoalTest, class Intermission>
-    PathT findPathMapNode(const NodeT& from, const GoalTest& goal_test,
+    PathT findPathMapNode(const NodeT from, const GoalTest& goal_test,
                           boost::function<void()> intermission)
     {
         init();
@@ -449,6 +452,7 @@ protected:
     {
         expansions = 0;
         multi_expansions = 0;
+        touched = 0;
         updates = 0;
 
         result = {};
@@ -458,6 +462,13 @@ protected:
 
         start.clear();
         goal.clear();
+        heuristic_goal = NULL;
+
+        // forget the costs and marks of the previous search
+        if(map_used_) {
+            map_.initMap(false);
+        }
+        map_used_ = true;
     }
 
     void initStartPose(const PointT& pose)
@@ -760,6 +771,9 @@ protected:
 
     double time_limit_;
 
+    /// true, once a search has used the nodes of the current map
+    bool map_used_;
+
     std::chrono::time_point<std::chrono::high_resolution_clock> stamp_abort_;
 
     std::function<bool(const PathT&)> goal_candidate_function;
-- 
2.43.0


From 85640834f349f5ebc308cf47c7a7431d76f8e7bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:23 +0000
Subject: [PATCH 07/48] fix: Dijkstra searches can be instantiated

The search asks its node type for the nodes of a pose, which only the nodes with a heuristic offered.
---
 include/cslibs_path_planning/generic/Common.hpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/include/cslibs_path_planning/generic/Common.hpp b/include/cslibs_path_planning/generic/Common.hpp
index 145078b..52d91f0 100644
--- a/include/cslibs_path_planning/generic/Common.hpp
+++ b/include/cslibs_path_planning/generic/Common.hpp
@@ -102,6 +102,14 @@ struct Node : public PointT {
         memory.custom = 0;
     }
 
+    template <class AnyPoint, class Map>
+    static std::vector<NodeType*> getPoses(Map& map, const AnyPoint& p)
+    {
+        NodeType n;
+        NodeType::init(n, p);
+        return std::vector<NodeType*>(1, map.lookup(n));
+    }
+
     double distance;
     char marked;
     char custom;
-- 
2.43.0


From fe16ee9b5b5db68e21c1a59813215d0ef07018fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:14 +0000
Subject: [PATCH 08/48] fix: looking up a pose left of or below the map does
 not find the border cell

---
 .../cslibs_path_planning/generic/MapManager.hpp | 17 +++--------------
 1 file changed, 3 insertions(+), 14 deletions(-)

diff --git a/include/cslibs_path_planning/generic/MapManager.hpp b/include/cslibs_path_planning/generic/MapManager.hpp
index 718b50e..4be17b0 100644
--- a/include/cslibs_path_planning/generic/MapManager.hpp
+++ b/include/cslibs_path_planning/generic/MapManager.hpp
@@ -201,12 +201,7 @@ struct GridMapManager :
 
     template <class PointT>
     NodeType* lookup(const PointT& reference) const {
-        unsigned y = reference.y;
-        unsigned x = reference.x;
-        if((x < 0) || (y < 0) || (x >= w) || (y >= h)) {
-            throw OutsideMapException();
-        }
-        return &data[index(x,y)];
+        return lookup((double) reference.x, (double) reference.y);
     }
 
     NodeType* lookup(const int x, const int y) const {
@@ -386,16 +381,10 @@ public:
 
     template <class PointT>
     NodeType* lookup(const PointT& reference) {
-        unsigned y = reference.y;
-        unsigned x = reference.x;
-        unsigned t = angle2index(reference.theta);
-        return &data[index(x,y,t, reference.forward)];
+        return lookup((double) reference.x, (double) reference.y, reference.theta, reference.forward);
     }
     NodeType* lookup(const Pose2d& reference) {
-        unsigned y = reference.y;
-        unsigned x = reference.x;
-        unsigned t = angle2index(reference.theta);
-        return &data[index(x,y,t, true)];
+        return lookup((double) reference.x, (double) reference.y, reference.theta, true);
     }
 
     NodeType* lookup(const int x, const int y, double theta, bool forward) {
-- 
2.43.0


From 925f5f56e2bb259f7507507bbd66c03295e1a42e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:14 +0000
Subject: [PATCH 09/48] fix: cells in the padding are kept in the chunk that
 contains them

---
 .../generic/MapManager.hpp                     | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/include/cslibs_path_planning/generic/MapManager.hpp b/include/cslibs_path_planning/generic/MapManager.hpp
index 4be17b0..82c273c 100644
--- a/include/cslibs_path_planning/generic/MapManager.hpp
+++ b/include/cslibs_path_planning/generic/MapManager.hpp
@@ -599,10 +599,8 @@ public:
         if((x < -padding) || (y < -padding) || (x >= (int) (w + padding)) || (y >= (int) (h + padding)) || (t < 0) || (t >= theta_slots)) {
             throw OutsideMapException();
         }
-        int cx = (x / (int) chunk_size);
-        if(x < 0) cx -= 1;
-        int cy = (y / (int) chunk_size);
-        if(y < 0) cy -= 1;
+        int cx = chunkOf(x);
+        int cy = chunkOf(y);
 
         int cxp = cx + padding_chunks;
         int cyp = cy + padding_chunks;
@@ -623,10 +621,10 @@ public:
         if((x < -padding) || (y < -padding) || (x >= (int) (w + padding)) || (y >= (int) (h + padding)) || (t < 0) || (t >= (int) theta_slots)) {
             throw OutsideMapException();
         }
-        int cx = (x / chunk_size);
-        int cy = (y / chunk_size);
+        int cxp = chunkOf(x) + padding_chunks;
+        int cyp = chunkOf(y) + padding_chunks;
 
-        Chunk* chunk = chunks.at(cy * chunks_w + cx);
+        Chunk* chunk = chunks.at(cyp * chunks_w + cxp);
         return chunk != nullptr;
     }
 
@@ -758,6 +756,12 @@ protected:
     int bresenham_skips;
 
 private:
+    /// number of the chunk that contains the cell coordinate c, rounded down also for negative coordinates
+    int chunkOf(const int c) const {
+        int size = chunk_size;
+        return c >= 0 ? c / size : (c + 1) / size - 1;
+    }
+
     unsigned dimension;
     unsigned chunk_size;
 
-- 
2.43.0


From 030a0d0da6da8d8f001de945753d772805227118 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:22 +0000
Subject: [PATCH 10/48] fix: lines through the padding of a state space are
 looked at

---
 include/cslibs_path_planning/common/Bresenham2d.h   |  8 ++++++++
 include/cslibs_path_planning/generic/MapManager.hpp | 12 ++++++------
 src/common/Bresenham2d.cpp                          |  7 ++++++-
 3 files changed, 20 insertions(+), 7 deletions(-)

diff --git a/include/cslibs_path_planning/common/Bresenham2d.h b/include/cslibs_path_planning/common/Bresenham2d.h
index 857aefb..ca8beed 100644
--- a/include/cslibs_path_planning/common/Bresenham2d.h
+++ b/include/cslibs_path_planning/common/Bresenham2d.h
@@ -43,6 +43,14 @@ public:
      */
     void setGrid(const GridMap2d *map, int start_x, int start_y, int end_x, int end_y );
 
+    /**
+     * @brief Set start and end of a line that may leave the map
+     * Only the coordinates of the visited cells can be used.
+     * @param start Start of the line (grid coordinates)
+     * @param end End of the line (grid coordinates)
+     */
+    void setGrid(int start_x, int start_y, int end_x, int end_y );
+
     /**
      * @brief Select next cell
      * @return False if we reached the end
diff --git a/include/cslibs_path_planning/generic/MapManager.hpp b/include/cslibs_path_planning/generic/MapManager.hpp
index 82c273c..b6b81b3 100644
--- a/include/cslibs_path_planning/generic/MapManager.hpp
+++ b/include/cslibs_path_planning/generic/MapManager.hpp
@@ -648,7 +648,7 @@ public:
     }
 
     bool isFree(const double sx, const double sy, const double ex, const double ey) const {
-        bresenham.setGrid(map_, std::floor(sx + padding), std::floor(sy + padding), std::floor(ex + padding),std::floor(ey + padding));
+        bresenham.setGrid(std::floor(sx + padding), std::floor(sy + padding), std::floor(ex + padding),std::floor(ey + padding));
 
         double theta = std::atan2(ey-sy,ex-sx);
 
@@ -667,11 +667,11 @@ public:
             }
         }
 
-        return isFree(ex,ey,theta);
+        return isFree((int) std::floor(ex),(int) std::floor(ey),theta);
     }
 
     bool isFreeOrUnknown(const double sx, const double sy, const double ex, const double ey) const {
-        bresenham.setGrid(map_, std::floor(sx + padding), std::floor(sy + padding), std::floor(ex + padding),std::floor(ey + padding));
+        bresenham.setGrid(std::floor(sx + padding), std::floor(sy + padding), std::floor(ex + padding),std::floor(ey + padding));
 
         double theta = std::atan2(ey-sy,ex-sx);
 
@@ -691,12 +691,12 @@ public:
             }
         }
 
-        return isFreeOrUnknown(sx,sy,theta);
+        return isFreeOrUnknown((int) std::floor(ex),(int) std::floor(ey),theta);
     }
 
 
     bool isOccupied(const double sx, const double sy, const double ex, const double ey) const {
-        bresenham.setGrid(map_, std::floor(sx + padding), std::floor(sy + padding), std::floor(ex + padding),std::floor(ey + padding));
+        bresenham.setGrid(std::floor(sx + padding), std::floor(sy + padding), std::floor(ex + padding),std::floor(ey + padding));
 
         double theta = std::atan2(ey-sy,ex-sx);
 
@@ -715,7 +715,7 @@ public:
             }
         }
 
-        return isOccupied(ex,ey,theta);
+        return isOccupied((int) std::floor(ex),(int) std::floor(ey),theta);
     }
 
     bool isFree(int x, int y, double theta) const {
diff --git a/src/common/Bresenham2d.cpp b/src/common/Bresenham2d.cpp
index 5020449..ec5919e 100644
--- a/src/common/Bresenham2d.cpp
+++ b/src/common/Bresenham2d.cpp
@@ -49,8 +49,13 @@ void Bresenham2d::setGrid(const GridMap2d *map, int start_x, int start_y, int en
         return;
     }
 
-    // Start/end in cell coordinates
     map_ = map;
+    setGrid(start_x, start_y, end_x, end_y);
+}
+
+void Bresenham2d::setGrid(int start_x, int start_y, int end_x, int end_y)
+{
+    // Start/end in cell coordinates
     x0_ = start_x; y0_ = start_y;
     x1_ = end_x; y1_ = end_y;
 
-- 
2.43.0


From fd818bc9915d0bca03c86daa95a4ff966486902b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:54 +0000
Subject: [PATCH 11/48] fix: compile time rounding of the numbers next to one
 half

---
 include/cslibs_path_planning/common/TmpMath.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/cslibs_path_planning/common/TmpMath.hpp b/include/cslibs_path_planning/common/TmpMath.hpp
index fd9dd25..3a86531 100644
--- a/include/cslibs_path_planning/common/TmpMath.hpp
+++ b/include/cslibs_path_planning/common/TmpMath.hpp
@@ -7,7 +7,8 @@ namespace tmpmath
 // Compile time rounding to nearest whole number
 constexpr int round(double x)
 {
-    return (x >= 0 ? x + 0.5 : x - 0.5);
+    // compare the (exact) fraction, x + 0.5 may itself be rounded up
+    return (x >= 0 ? (int) x + (x - (int) x >= 0.5) : (int) x - ((int) x - x >= 0.5));
 }
 } // namespace tmpmath
 
-- 
2.43.0


From 075141e0eab55e101e9a9706a60a38ab2cbbfeed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:54 +0000
Subject: [PATCH 12/48] fix: steering nodes keep the orientation of the pose
 they are initialised with

---
 include/cslibs_path_planning/generic/SteeringNode.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/cslibs_path_planning/generic/SteeringNode.hpp b/include/cslibs_path_planning/generic/SteeringNode.hpp
index f159650..740bdab 100644
--- a/include/cslibs_path_planning/generic/SteeringNode.hpp
+++ b/include/cslibs_path_planning/generic/SteeringNode.hpp
@@ -19,7 +19,7 @@ struct SteeringNode : public Node {
     template <class AnyPoint>
     static void init(SteeringNode<Node> &memory, const AnyPoint& p) {
         Node::init(memory, p);
-        memory.theta = 0.0f;
+        memory.theta = p.theta;
         memory.steering_angle = 0.0f;
 //        memory.forward = true;
         memory.depth = 0;
-- 
2.43.0


From 22bf1b338ebf93b1ce7ea82ebc6144abe56bc34b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:04 +0000
Subject: [PATCH 13/48] fix: an area is without information if its cells are,
 not if they are not

---
 src/common/GridMap2d.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/common/GridMap2d.cpp b/src/common/GridMap2d.cpp
index cb5bd5c..e98cc75 100644
--- a/src/common/GridMap2d.cpp
+++ b/src/common/GridMap2d.cpp
@@ -84,7 +84,7 @@ bool GridMap2d::isAreaNoInformation(MapArea2d &area ) const
     int x, y;
     while ( area.next()) {
         area.getCell( x, y );
-        if ( isInMap( x, y ) && isNoInformation(x, y))
+        if ( isInMap( x, y ) && !isNoInformation(x, y))
             return false;
     }
     return true;
-- 
2.43.0


From e9d30f93a172ac11e2098c8425a893c61fc8758a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:12 +0000
Subject: [PATCH 14/48] fix: obstacle heuristic reads padded maps at the right
 cells

---
 include/cslibs_path_planning/generic/Heuristics.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/cslibs_path_planning/generic/Heuristics.hpp b/include/cslibs_path_planning/generic/Heuristics.hpp
index bf17462..a1f138d 100644
--- a/include/cslibs_path_planning/generic/Heuristics.hpp
+++ b/include/cslibs_path_planning/generic/Heuristics.hpp
@@ -339,7 +339,7 @@ struct HeuristicHolonomicObstacles {
 
         for(unsigned int row = 0; row < h; ++row) {
             for(unsigned int col = 0; col < w; ++col) {
-                if(!map->isOccupied(col, row, 0)) {
+                if(!map->isOccupied((int) col - padding, (int) row - padding, 0)) {
                     cost(col, row) = std::numeric_limits<double>::max();
                 } else {
                     cost(col, row) = std::numeric_limits<double>::infinity();
-- 
2.43.0


From 02d24c4a2af2522dba7dde64d49b25daf2710dda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:12 +0000
Subject: [PATCH 15/48] fix: StateSpaceManager can be instantiated and refuses
 fractional negative positions

---
 include/cslibs_path_planning/generic/MapManager.hpp | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/include/cslibs_path_planning/generic/MapManager.hpp b/include/cslibs_path_planning/generic/MapManager.hpp
index b6b81b3..d432f6d 100644
--- a/include/cslibs_path_planning/generic/MapManager.hpp
+++ b/include/cslibs_path_planning/generic/MapManager.hpp
@@ -275,7 +275,7 @@ public:
 
     inline unsigned index(unsigned x, unsigned y, unsigned t) const {
         if((x < 0) || (y < 0) || (x >= w) || (y >= h) || (t < 0) || (t >= theta_slots)) {
-            throw typename ManagerT::OutsideMapException();
+            throw OutsideMapException();
         }
         return y * w + x + t*w*h;
     }
@@ -285,21 +285,18 @@ public:
 
     template <class PointT>
     NodeType* lookup(const PointT& reference) const {
-        unsigned y = reference.y;
-        unsigned x = reference.x;
-        unsigned t = angle2index(reference.theta);
-        return &data[index(x,y,t)];
+        return lookup((double) reference.x, (double) reference.y, reference.theta);
     }
 
     NodeType* lookup(const int x, const int y, double theta) const {
         if((x < 0) || (y < 0) || (x >= w) || (y >= h)) {
-            throw typename ManagerT::OutsideMapException();
+            throw OutsideMapException();
         }
         return &data[index(x,y,angle2index(theta))];
     }
     NodeType* lookup(const double x, const double y, double theta) const {
         if((x < 0) || (y < 0) || (x >= w) || (y >= h)) {
-            throw typename ManagerT::OutsideMapException();
+            throw OutsideMapException();
         }
         return lookup((int) std::floor(x), (int) std::floor(y), theta);
     }
-- 
2.43.0


From 4648018d448f5467d22fd22685d63e319c362bdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:18 +0000
Subject: [PATCH 16/48] fix: legacy A* notices that the map it works on has got
 another size

---
 include/cslibs_path_planning/a_star/AStar.h | 2 ++
 src/a_star/AStar.cpp                        | 9 ++++++---
 2 files changed, 8 insertions(+), 3 deletions(-)

diff --git a/include/cslibs_path_planning/a_star/AStar.h b/include/cslibs_path_planning/a_star/AStar.h
index 475fd7e..0f7db0c 100644
--- a/include/cslibs_path_planning/a_star/AStar.h
+++ b/include/cslibs_path_planning/a_star/AStar.h
@@ -102,6 +102,8 @@ private:
 	unsigned char getMapValue(const waypoint_t& waypoint);
 
 	OpenList* mNodesList;
+	int mNodesWidth;  ///< Width of the map the node list was created for
+	int mNodesHeight; ///< Height of the map the node list was created for
 	static const int mNeighborCount = 8;
 	neighbor_t mNeighbors[mNeighborCount];
     GridMap2d* mMap;
diff --git a/src/a_star/AStar.cpp b/src/a_star/AStar.cpp
index f8f3ed4..ba055b6 100644
--- a/src/a_star/AStar.cpp
+++ b/src/a_star/AStar.cpp
@@ -41,7 +41,7 @@ AStar::~AStar() {
 
 void AStar::setNewMap( GridMap2d* map ) {
     // Check if there is an existing map
-    if ( mMap != NULL && ( mMap->getWidth() != map->getWidth() || mMap->getHeight() != map->getHeight() )) {
+    if ( mNodesList != NULL && ( mNodesWidth != (int)map->getWidth() || mNodesHeight != (int)map->getHeight() )) {
         cout << "AStar: Warning: Set map with new size. This takes some computation time." << endl;
         delete mNodesList;
         mNodesList = NULL;
@@ -49,8 +49,11 @@ void AStar::setNewMap( GridMap2d* map ) {
     mMap = map;
 
     // Create node list only if necessary
-    if ( mNodesList == NULL )
-        mNodesList = new OpenList( mMap->getWidth(), mMap->getHeight());
+    if ( mNodesList == NULL ) {
+        mNodesWidth = mMap->getWidth();
+        mNodesHeight = mMap->getHeight();
+        mNodesList = new OpenList( mNodesWidth, mNodesHeight );
+    }
 }
 
 bool AStar::planPath( const waypoint_t &start, const waypoint_t &goal ) {
-- 
2.43.0


From 730102f2bdfd8608851c818514321a561f386dd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:11 +0000
Subject: [PATCH 17/48] fix: centroid goal region weights approaches
 symmetrically from 1.0 to 2.0

---
 src/sampling/CentroidRadiusGoalRegion.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/sampling/CentroidRadiusGoalRegion.cpp b/src/sampling/CentroidRadiusGoalRegion.cpp
index 4a370d4..ec47371 100644
--- a/src/sampling/CentroidRadiusGoalRegion.cpp
+++ b/src/sampling/CentroidRadiusGoalRegion.cpp
@@ -56,8 +56,9 @@ bool CentroidRadiusGoalRegion::getNextGoal (Pose2d &goal, double& gain)
   theta_ = MathHelper::AngleClamp (theta_ + theta_step_);
 
   // Direct approach 1.0 -> approach from max angle 2.0
-  int32_t diff = (int32_t)(counter_ - (samples_num_/2));
-  gain = 1.0 + 2.0*abs (diff) / samples_num_;
+  gain = 1.0;
+  if (samples_num_ > 1)
+    gain += fabs (2.0*(counter_-1) / (samples_num_-1) - 1.0);
 
   return true;
 }
-- 
2.43.0


From b16658982b35355d49cda29147a376d8ecc1862a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:09 +0000
Subject: [PATCH 18/48] fix: CurveGenerator::parse returns true for correct
 sequences as documented

---
 src/ReedsShepp/CurveGenerator.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ReedsShepp/CurveGenerator.cpp b/src/ReedsShepp/CurveGenerator.cpp
index cd8d077..d0cc89e 100644
--- a/src/ReedsShepp/CurveGenerator.cpp
+++ b/src/ReedsShepp/CurveGenerator.cpp
@@ -174,7 +174,7 @@ bool CurveGenerator::parse(const std::string& sequence, std::ostream& out)
             out << " ";
         out << "^" << std::endl;
     }
-    return error;
+    return !error;
 }
 
 Curve* CurveGenerator::find_path(const Pose2d& start, const Pose2d& goal, const GridMap2d* map, bool ignore_obstacles)
-- 
2.43.0


From 2f3af8013ddf75473c7723f8edd1e8a15f2049bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:09 +0000
Subject: [PATCH 19/48] fix: a subsequence in front of the first segment is a
 parse error instead of an abort

---
 src/ReedsShepp/CurveGenerator.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/ReedsShepp/CurveGenerator.cpp b/src/ReedsShepp/CurveGenerator.cpp
index d0cc89e..488fb33 100644
--- a/src/ReedsShepp/CurveGenerator.cpp
+++ b/src/ReedsShepp/CurveGenerator.cpp
@@ -94,6 +94,11 @@ bool CurveGenerator::parse(const std::string& sequence, std::ostream& out)
                 error = true;
                 break;
             case 'b': {
+                if(new_curve.count() == 0) {
+                    out << "RS Generator: error parsing" << std::endl << sequence << ", subsequence without a circle" << std::endl;
+                    error = true;
+                    break;
+                }
                 const CurveSegment& cs = new_curve.get_segment(new_curve.count() - 1);
 //                CurveSegment* cs = m_sequences[m_count].at(m_sequences[m_count].size()-1);
 
-- 
2.43.0


From 963964d7ca31164283add5ab19d23497e5961caf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:09 +0000
Subject: [PATCH 20/48] fix: initialise the largest curve arc of the curve
 generator

---
 src/ReedsShepp/CurveGenerator.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/ReedsShepp/CurveGenerator.cpp b/src/ReedsShepp/CurveGenerator.cpp
index 488fb33..6eee1f2 100644
--- a/src/ReedsShepp/CurveGenerator.cpp
+++ b/src/ReedsShepp/CurveGenerator.cpp
@@ -9,6 +9,7 @@
 #include <cslibs_path_planning/ReedsShepp/CurveGenerator.h>
 
 /// SYSTEM
+#include <limits>
 #include <stdio.h>
 #include <typeinfo>
 
@@ -18,6 +19,7 @@ CurveGenerator::CurveGenerator()
     : m_use_map_cost(false), m_min_cell_cost(10),
       m_circle_radius(2.0), m_max_waypoint_distance(1.0),
       m_cost_forwards(1.0), m_cost_backwards(1.0), m_cost_curve(1.0), m_cost_straight(1.0),
+      m_max_curve_arc(std::numeric_limits<double>::infinity()),
       m_trace(-1)
 {
 }
-- 
2.43.0


From 983d47ba70c352fe2669cee6e16290890dc5945c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:09 +0000
Subject: [PATCH 21/48] fix: sequences that start or end with a line are not
 admissible instead of an abort

---
 src/ReedsShepp/Curve.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/ReedsShepp/Curve.cpp b/src/ReedsShepp/Curve.cpp
index 67c4a0f..57572e4 100644
--- a/src/ReedsShepp/Curve.cpp
+++ b/src/ReedsShepp/Curve.cpp
@@ -108,6 +108,11 @@ double Curve::check_if_admissible()
         return NOT_FREE;
     }
 
+    if(!dynamic_cast<CircleSegment*>(m_sequence.front()) || !dynamic_cast<CircleSegment*>(m_sequence.back())) {
+        // only curves that start and end with a circle can be fitted to two poses
+        return NOT_FREE;
+    }
+
     init_segments();
 
     if(!handle_sequence()) {
-- 
2.43.0


From 1a1bfbe7fc1b741c81b7ed219d170fdc2b172375 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:09 +0000
Subject: [PATCH 22/48] fix: consecutive circles of the same orientation are
 not joined with a kink

---
 src/ReedsShepp/Curve.cpp | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/ReedsShepp/Curve.cpp b/src/ReedsShepp/Curve.cpp
index 57572e4..8f153b6 100644
--- a/src/ReedsShepp/Curve.cpp
+++ b/src/ReedsShepp/Curve.cpp
@@ -218,6 +218,11 @@ double Curve::handle_sequence_C3()
 
     assert(circle1 && circle2 && circle3);
 
+    if(circle1->get_orientation() == circle2->get_orientation() || circle2->get_orientation() == circle3->get_orientation()) {
+        // circles of the same orientation touch each other with opposite headings
+        return NOT_FREE;
+    }
+
     if(!GeometryHelper::get_tangential_circle(*circle1, *circle2, *circle3, m_ignore_obstacles)) {
         return NOT_FREE;
     }
@@ -237,6 +242,12 @@ double Curve::handle_sequence_C4()
 
     assert(start && circle2 && circle3 && goal);
 
+    if(start->get_orientation() == circle2->get_orientation() || circle2->get_orientation() == circle3->get_orientation()
+            || circle3->get_orientation() == goal->get_orientation()) {
+        // circles of the same orientation touch each other with opposite headings
+        return NOT_FREE;
+    }
+
     if(!GeometryHelper::get_tangential_double_circle(*start, *circle2, *circle3, *goal, m_ignore_obstacles)) {
         return NOT_FREE;
     }
-- 
2.43.0


From cc6edab19903df4349a50e57968a5359f57e17d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:09 +0000
Subject: [PATCH 23/48] fix: overlapping circles of the same orientation have
 an external tangent

---
 src/ReedsShepp/GeometryHelper.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/ReedsShepp/GeometryHelper.cpp b/src/ReedsShepp/GeometryHelper.cpp
index d4a7bfc..92b54c1 100644
--- a/src/ReedsShepp/GeometryHelper.cpp
+++ b/src/ReedsShepp/GeometryHelper.cpp
@@ -20,12 +20,13 @@ bool GeometryHelper::get_common_tangent(CircleSegment& circle_from, CircleSegmen
     double radius_sum = circle_from.m_radius + circle_to.m_radius;
 
     // the circles overlap, if the distance between their centers is <= the sum of their radii
-    // in this case, we cannot compute a tangent
-    if(distance < radius_sum) {
+    // in this case, there is no internal tangent
+    bool external = circle_from.m_orientation == circle_to.m_orientation;
+    if(distance < (external ? 1e-6 : radius_sum)) {
         return false;
     }
 
-    if(circle_from.m_orientation == circle_to.m_orientation) {
+    if(external) {
         external_tangent(circle_from, tangent_out, circle_to);
     } else {
         internal_tangent(circle_from, tangent_out, circle_to);
-- 
2.43.0


From 9df8af89a233f8dc969b5a713cf97199948c9432 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:09 +0000
Subject: [PATCH 24/48] fix: arcs of length zero do not become full circles

---
 src/ReedsShepp/CircleSegment.cpp | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/ReedsShepp/CircleSegment.cpp b/src/ReedsShepp/CircleSegment.cpp
index a68aa16..9b59244 100644
--- a/src/ReedsShepp/CircleSegment.cpp
+++ b/src/ReedsShepp/CircleSegment.cpp
@@ -202,6 +202,10 @@ bool CircleSegment::testPixel(int cx, int cy, int x, int y, bool ignore_obstacle
         float angle = atan2(y-cy, x-cx);
         bool on_segment = false;
 
+        if(m_arc_length == 0) {
+            return true;
+        }
+
         float start = NORMALIZE(m_angle_start);
         float end = NORMALIZE(m_angle_end);
 
@@ -251,6 +255,11 @@ void CircleSegment::compute_arc_length()
 {
     float arc_angle = NORMALIZE(m_angle_end - m_angle_start);
 
+    // the angles are subject to rounding, an arc of length zero must not become a full circle
+    if(std::abs(arc_angle) < 1e-5f) {
+        arc_angle = 0;
+    }
+
     // arc length is in [-2pi, 2pi] and represents the arc to drive on
     //  (may be up to a full circle in both directions)
 
@@ -270,16 +279,15 @@ void CircleSegment::compute_arc_length()
     //   => POSITIVE = (LEFT xor BACKWARD)
 
     bool must_be_positive = (m_orientation == LEFT_CURVE) ^(m_direction == BACKWARD);
-    bool is_positive = (arc_angle >= 0);
 
     // if arc must be positive, but is negative
     //  -> arc has to be > PI and has been normalized to a negative number -> add 2 PI
     // similarly, if arc must be negative, but is positive
     //  -> subtract 2 PI
-    if(must_be_positive && !is_positive) {
+    if(must_be_positive && arc_angle < 0) {
         m_arc_length = arc_angle + 2 * M_PI;
 
-    } else if(!must_be_positive && is_positive) {
+    } else if(!must_be_positive && arc_angle > 0) {
         m_arc_length = arc_angle - 2 * M_PI;
 
     } else {
-- 
2.43.0


From 094b3f7366967861597d88ad8d315e6585188514 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:09 +0000
Subject: [PATCH 25/48] fix: only the driven part of a circle has to lie inside
 the map

---
 src/ReedsShepp/CircleSegment.cpp | 58 ++++++++++++++++----------------
 1 file changed, 29 insertions(+), 29 deletions(-)

diff --git a/src/ReedsShepp/CircleSegment.cpp b/src/ReedsShepp/CircleSegment.cpp
index 9b59244..fb0320f 100644
--- a/src/ReedsShepp/CircleSegment.cpp
+++ b/src/ReedsShepp/CircleSegment.cpp
@@ -198,40 +198,40 @@ bool CircleSegment::test4Points(int cx, int cy, int x, int y, bool ignore_obstac
 
 bool CircleSegment::testPixel(int cx, int cy, int x, int y, bool ignore_obstacles)
 {
-    if(m_map->isInMap(x, y)) {
-        float angle = atan2(y-cy, x-cx);
-        bool on_segment = false;
+    float angle = atan2(y-cy, x-cx);
+    bool on_segment = false;
 
-        if(m_arc_length == 0) {
-            return true;
-        }
+    if(m_arc_length == 0) {
+        return true;
+    }
 
-        float start = NORMALIZE(m_angle_start);
-        float end = NORMALIZE(m_angle_end);
+    float start = NORMALIZE(m_angle_start);
+    float end = NORMALIZE(m_angle_end);
 
-        bool increasing = m_angle_step_size > 0;//(m_arc_length > 0) ^ (m_direction == BACKWARD);
-        bool decreasing = !increasing;
+    bool increasing = m_angle_step_size > 0;//(m_arc_length > 0) ^ (m_direction == BACKWARD);
+    bool decreasing = !increasing;
 
-        if(start > end) {
-            if(decreasing) {
-                // start > end  &&  angle decreasing  -> no possible overflow
-                on_segment = angle <= start && angle >= end;
-            } else {
-                // start > end  &&  angle increasing  ->  possible overflow
-                on_segment = angle >= start || angle <= end;
-            }
+    if(start > end) {
+        if(decreasing) {
+            // start > end  &&  angle decreasing  -> no possible overflow
+            on_segment = angle <= start && angle >= end;
         } else {
-            // start <= end
-            if(increasing) {
-                // start <= end  &&  angle increasing  -> no possible overflow
-                on_segment = angle >= start && angle <= end;
-            } else {
-                // start <= end  &&  angle decreasing  -> possible overflow
-                on_segment = angle <= start || angle >= end;
-            }
+            // start > end  &&  angle increasing  ->  possible overflow
+            on_segment = angle >= start || angle <= end;
         }
+    } else {
+        // start <= end
+        if(increasing) {
+            // start <= end  &&  angle increasing  -> no possible overflow
+            on_segment = angle >= start && angle <= end;
+        } else {
+            // start <= end  &&  angle decreasing  -> possible overflow
+            on_segment = angle <= start || angle >= end;
+        }
+    }
 
-        if(on_segment) {
+    if(on_segment) {
+        if(m_map->isInMap(x, y)) {
             m_weight += max(m_min_cell_cost, m_map->getValue(x, y));
             bool free = m_map->isFree(x, y);
             if(m_trace != -1) {
@@ -243,9 +243,9 @@ bool CircleSegment::testPixel(int cx, int cy, int x, int y, bool ignore_obstacle
             } else {
                 return free;
             }
+        } else {
+            return false;
         }
-    } else {
-        return false;
     }
 
     return true;
-- 
2.43.0


From 2c6438e74e3c295069d3627079327765b91c0013 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:09 +0000
Subject: [PATCH 26/48] fix: waypoints of a curve end at the goal and keep the
 maximal distance

---
 src/ReedsShepp/CircleSegment.cpp | 9 +++------
 src/ReedsShepp/LineSegment.cpp   | 4 +++-
 2 files changed, 6 insertions(+), 7 deletions(-)

diff --git a/src/ReedsShepp/CircleSegment.cpp b/src/ReedsShepp/CircleSegment.cpp
index fb0320f..eb34b33 100644
--- a/src/ReedsShepp/CircleSegment.cpp
+++ b/src/ReedsShepp/CircleSegment.cpp
@@ -294,14 +294,11 @@ void CircleSegment::compute_arc_length()
         m_arc_length = arc_angle;
     }
 
-    int sign = m_arc_length >= 0 ? 1 : -1;
+    // no of steps, each step should produce a distance of at most m_max_distance
+    m_steps = (int) std::ceil(length() / m_max_distance);
 
-    // each step should produce a distance of m_max_distance
     // -> polar coordinates, calulate step in angle
-    m_angle_step_size = m_max_distance / m_radius * sign;
-
-    // no of steps
-    m_steps = std::max(1, (int) std::abs(std::floor(m_arc_length / m_angle_step_size)));
+    m_angle_step_size = m_arc_length / std::max(1, m_steps);
 }
 
 void CircleSegment::reset_iteration()
diff --git a/src/ReedsShepp/LineSegment.cpp b/src/ReedsShepp/LineSegment.cpp
index 72f8278..5bd0a04 100644
--- a/src/ReedsShepp/LineSegment.cpp
+++ b/src/ReedsShepp/LineSegment.cpp
@@ -100,7 +100,9 @@ void LineSegment::reset_iteration()
 {
     m_iterating = true;
     m_output = 0;
-    m_segments = m_start.distance_to(m_end) / m_max_distance;
+    double length = m_start.distance_to(m_end);
+    // a line of length zero has no direction and therefore no waypoints
+    m_segments = length < 1e-3 ? 0 : ceil(length / m_max_distance);
 }
 
 bool LineSegment::has_next()
-- 
2.43.0


From ed4c7d3f5ac4997d945c9b7797dec7874528481f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:31 +0000
Subject: [PATCH 27/48] fix: arcs shorter than a cell are tested against the
 map and weighed

---
 .../ReedsShepp/CircleSegment.h                     |  1 +
 src/ReedsShepp/CircleSegment.cpp                   | 14 ++++++++++++++
 2 files changed, 15 insertions(+)

diff --git a/include/cslibs_path_planning/ReedsShepp/CircleSegment.h b/include/cslibs_path_planning/ReedsShepp/CircleSegment.h
index 468f5b7..a9d5ed1 100644
--- a/include/cslibs_path_planning/ReedsShepp/CircleSegment.h
+++ b/include/cslibs_path_planning/ReedsShepp/CircleSegment.h
@@ -133,6 +133,7 @@ private:
     int m_steps;
 
     double m_weight;
+    bool m_tested;
 };
 
 }
diff --git a/src/ReedsShepp/CircleSegment.cpp b/src/ReedsShepp/CircleSegment.cpp
index eb34b33..fef6825 100644
--- a/src/ReedsShepp/CircleSegment.cpp
+++ b/src/ReedsShepp/CircleSegment.cpp
@@ -112,8 +112,21 @@ Point2d CircleSegment::get_end_point() const
 float CircleSegment::weight(bool ignore_obstacles)
 {
     m_weight = 0;
+    m_tested = false;
     bool is_free = checkCircle(m_center.x, m_center.y, m_radius, ignore_obstacles);
 
+    if(!m_tested && m_arc_length != 0) {
+        // the arc is too short to contain a pixel of the circle, so look at the cell it starts in
+        int x = floor(get_start_point().x);
+        int y = floor(get_start_point().y);
+        if(m_map->isInMap(x, y)) {
+            m_weight += max(m_min_cell_cost, m_map->getValue(x, y));
+            is_free = m_map->isFree(x, y);
+        } else {
+            is_free = false;
+        }
+    }
+
     if(ignore_obstacles || is_free) {
         float cost = (m_direction == CurveSegment::BACKWARD) ? m_cost_backwards : m_cost_forwards;
         if(m_use_map_cost)
@@ -231,6 +244,7 @@ bool CircleSegment::testPixel(int cx, int cy, int x, int y, bool ignore_obstacle
     }
 
     if(on_segment) {
+        m_tested = true;
         if(m_map->isInMap(x, y)) {
             m_weight += max(m_min_cell_cost, m_map->getValue(x, y));
             bool free = m_map->isFree(x, y);
-- 
2.43.0


From 187c6251299274d0d67ef7686b74f699d2c2dc09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:48 +0000
Subject: [PATCH 28/48] fix: arcs set in one go keep their arc angle within a
 full circle

---
 src/geometry/circle.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/geometry/circle.cpp b/src/geometry/circle.cpp
index d6cdc21..07c1bbe 100644
--- a/src/geometry/circle.cpp
+++ b/src/geometry/circle.cpp
@@ -118,7 +118,7 @@ void Circle::setEndAngle(double angle)
 void Circle::setArc(double start_angle, double arc_angle, int arc_direction)
 {
     setStartAngle(start_angle);
-    arc_angle_=arc_angle;
+    setArcAngle(arc_angle);
     if (arc_direction>=0) {
         arc_direction_=path_geom::ARC_LEFT;
     } else {
-- 
2.43.0


From e6b8b2cd813d9da7c8677ba557c8a4e933d9cad9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:28 +0000
Subject: [PATCH 29/48] fix: the ends of an arc lie on it

---
 src/geometry/circle.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/geometry/circle.cpp b/src/geometry/circle.cpp
index 07c1bbe..19d67c1 100644
--- a/src/geometry/circle.cpp
+++ b/src/geometry/circle.cpp
@@ -307,7 +307,8 @@ bool Circle::isPointOnArc(const Vector2d &p, double tol) const
             }
         }
     }
-    return false;
+    // start and end belong to the arc, whatever the rounding of the angles
+    return (p-startPoint()).norm()<=tol || (p-endPoint()).norm()<=tol;
 }
 
 
-- 
2.43.0


From ce7d0a14b5e45c3b6261e09b2f84a1de55951240 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:01 +0000
Subject: [PATCH 30/48] fix: concentric circles leave no intersections of an
 earlier call behind

---
 src/geometry/intersector.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/geometry/intersector.cpp b/src/geometry/intersector.cpp
index b1013fe..d41fee3 100644
--- a/src/geometry/intersector.cpp
+++ b/src/geometry/intersector.cpp
@@ -45,6 +45,7 @@ void Intersector::intersect(const Circle &c1, const Circle &c2, std::vector<Eige
     //Calculate distance between centres of circle
     Vector2d c1c2 = c2.center()-c1.center();
     double d = (c1c2).norm();
+    res_points.clear();
     if (d<tol) {
         return;
     }
@@ -52,7 +53,6 @@ void Intersector::intersect(const Circle &c1, const Circle &c2, std::vector<Eige
     double r2 = c2.radius();
     double m = r1+r2;
     double n = fabs(r1-r2);
-    res_points.clear();
     //No solns
     if ( d > m+tol )
         return;
-- 
2.43.0


From 6ca344a6af8d44270c45e2fd17d566aaf8fb08ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:25 +0000
Subject: [PATCH 31/48] fix: the points of an arc lie around its centre and
 follow its sense

---
 src/geometry/circle.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/geometry/circle.cpp b/src/geometry/circle.cpp
index 19d67c1..85b2bb8 100644
--- a/src/geometry/circle.cpp
+++ b/src/geometry/circle.cpp
@@ -185,10 +185,12 @@ void Circle::toPoints(double resolution, std::vector<Vector2d> &points)
     int steps = abs(arc_length/resolution);
     double dphi = arc_angle/steps;
     points.resize(steps);
+    if (arc_direction_==path_geom::ARC_RIGHT) {
+        dphi = -1.0*dphi;
+    }
     double phi = start_angle_;
     for (int i=0;i<steps;++i) {
-        points[i].x() = radius_*cos(phi);
-        points[i].y() = radius_*sin(phi);
+        points[i] = center_+ radius_*Vector2d(cos(phi),sin(phi));
         phi+=dphi;
 
     }
-- 
2.43.0


From 538955b39a3a243700a13d2c49e2a36231f8fb12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:49 +0000
Subject: [PATCH 32/48] fix: the last pose of a line with its start pose is set

---
 src/geometry/line.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/geometry/line.cpp b/src/geometry/line.cpp
index 4f4ccb0..29f2dac 100644
--- a/src/geometry/line.cpp
+++ b/src/geometry/line.cpp
@@ -76,7 +76,7 @@ void Line::toPoses(double resolution, PathPoseVec &poses, int move_direction, bo
         poses.resize(n);
         p=p+step;
     }
-    for (int i=0;i<n;++i) {
+    for (size_t i=0;i<poses.size();++i) {
         poses[i].pos_=p;
         poses[i].theta_ = theta;
         p+=step;
-- 
2.43.0


From abb6de39f6e9351b710cb63f87a0d4466e0f106c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:39 +0000
Subject: [PATCH 33/48] fix: tangential paths from the small to the large
 circle have their arc set

---
 src/geometry/tangentor.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/geometry/tangentor.cpp b/src/geometry/tangentor.cpp
index 572fccf..ed77582 100644
--- a/src/geometry/tangentor.cpp
+++ b/src/geometry/tangentor.cpp
@@ -246,6 +246,9 @@ void Tangentor::tangentPath(const Circle &small, const Circle &large, double rad
             if (!from_small) {
                 tcircle.selectStartPoint(ipoints_large.front());
                 tcircle.selectEndPoint(ipoints_small.front());
+            } else {
+                tcircle.selectStartPoint(ipoints_small.front());
+                tcircle.selectEndPoint(ipoints_large.front());
             }
             tangent_arcs.push_back(tcircle);
         } else {
-- 
2.43.0


From 83858b7f30e321e335e5fb7df6a5134eaa74ef0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:58 +0000
Subject: [PATCH 34/48] fix: tangential arcs between circles are looked for on
 the whole tangent circle

---
 src/geometry/tangentor.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/geometry/tangentor.cpp b/src/geometry/tangentor.cpp
index ed77582..36bd7ea 100644
--- a/src/geometry/tangentor.cpp
+++ b/src/geometry/tangentor.cpp
@@ -313,6 +313,7 @@ void Tangentor::tangentInnerArcs(const Circle &circle1, const Circle &circle2, d
         //std::cout << "intersection points circle 1 to arc:"<<ipoints.size() << std::endl;
         if (ipoints.size()==1) {
             tangent_circle.setStartAngle(ipoints[0]);
+            tangent_circle.setArcAngle(2*M_PI);
             Intersector::intersectArcs(tangent_circle, circle2, ipoints,tol);
           //  std::cout << "intersection points arc to circle 2 :"<<ipoints.size() << std::endl;
             if (ipoints.size()==1) {
-- 
2.43.0


From 40885713eef09385a3031cc6727fad947d364e5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:56 +0000
Subject: [PATCH 35/48] fix: poses turned clockwise from one another are not
 identical

---
 include/cslibs_path_planning/geometry/shape.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/cslibs_path_planning/geometry/shape.h b/include/cslibs_path_planning/geometry/shape.h
index e35a06a..856b1d7 100644
--- a/include/cslibs_path_planning/geometry/shape.h
+++ b/include/cslibs_path_planning/geometry/shape.h
@@ -88,7 +88,7 @@ public:
     bool isIdentical(const PathPose& other, double dist_tol=path_geom::DIST_EPS,
                      double angle_tol=path_geom::ANGLE_EPS) {
         return ((pos_-other.pos_).norm()<dist_tol &&
-              MathHelper::AngleDelta( theta_, other.theta_)<angle_tol);
+              fabs(MathHelper::AngleDelta( theta_, other.theta_))<angle_tol);
     }
 
     bool isIdentical(const Eigen::Vector2d& other, double dist_tol=path_geom::DIST_EPS) {
-- 
2.43.0


From 4988cf28c4758e7bc1fce8f31cf26102d5832b4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:24:10 +0000
Subject: [PATCH 36/48] fix: collision maps look up the footprint by the
 discrete heading, not by radians

---
 src/common/CollisionGridMap2d.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/common/CollisionGridMap2d.cpp b/src/common/CollisionGridMap2d.cpp
index 89c8177..b28bf14 100644
--- a/src/common/CollisionGridMap2d.cpp
+++ b/src/common/CollisionGridMap2d.cpp
@@ -148,7 +148,7 @@ CollisionGridMap2d::CollisionGridMap2d(const unsigned int w, const unsigned int
     : RotatedGridMap2d(w,h, yaw, r)
 {
     for(int t = 0; t< ANGLE_DISCRETIZATION; ++t) {
-        double theta = (2 * M_PI) * (t / (ANGLE_DISCRETIZATION + 1.0));
+        double theta = (2 * M_PI) * t / ANGLE_DISCRETIZATION;
         double res = getResolution();
 
         areas_[t] = new RobotArea(this, forward / res, backward / res, width / res, theta);
@@ -187,7 +187,7 @@ bool CollisionGridMap2d::isOccupiedRotated(const unsigned int x, const unsigned
     while(t >= 2*M_PI) t -= 2*M_PI;
 
     // check boundary
-    RobotArea* a = areas_[(int) round(t)];
+    RobotArea* a = areas_[(int) round(t / (2 * M_PI) * ANGLE_DISCRETIZATION) % ANGLE_DISCRETIZATION];
     a->setPosition(x,y);
     bool occ = isAreaOccupied(*a);
     return occ;
@@ -204,7 +204,7 @@ bool CollisionGridMap2d::isFreeRotated(const unsigned int x, const unsigned int
     while(t >= 2*M_PI) t -= 2*M_PI;
 
     // check boundary
-    RobotArea* a = areas_[(int) round(t)];
+    RobotArea* a = areas_[(int) round(t / (2 * M_PI) * ANGLE_DISCRETIZATION) % ANGLE_DISCRETIZATION];
     a->setPosition(x,y);
     bool free = isAreaFree(*a);
     return free;
@@ -225,7 +225,7 @@ bool CollisionGridMap2d::isNoInformationRotated(const unsigned int x, const unsi
     while(t >= 2*M_PI) t -= 2*M_PI;
 
     // check boundary
-    RobotArea* a = areas_[(int) round(t)];
+    RobotArea* a = areas_[(int) round(t / (2 * M_PI) * ANGLE_DISCRETIZATION) % ANGLE_DISCRETIZATION];
     a->setPosition(x,y);
     bool no_info = isAreaNoInformation(*a);
     return no_info;
-- 
2.43.0


From 2300683fe5383c0f5c0201da2c10644412819bf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:24:10 +0000
Subject: [PATCH 37/48] fix: the footprint of a collision map covers the whole
 rectangle

---
 src/common/CollisionGridMap2d.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/common/CollisionGridMap2d.cpp b/src/common/CollisionGridMap2d.cpp
index b28bf14..3a8af9e 100644
--- a/src/common/CollisionGridMap2d.cpp
+++ b/src/common/CollisionGridMap2d.cpp
@@ -33,7 +33,8 @@ RobotArea::RobotArea(CollisionGridMap2d const*  parent, double forward, double b
     Eigen::Vector2d bl = rot * bl_;
 
 //    double m_per_cell = parent->getResolution();
-    double m_per_step = width / 8;
+    // sizes are in cells here, at most half a cell may be skipped
+    double m_per_step = std::min(width / 8, 0.5);
 //    double m_per_step = m_per_cell * cell_per_step;
 
     int steps_row = std::ceil(width / m_per_step);
@@ -43,8 +44,8 @@ RobotArea::RobotArea(CollisionGridMap2d const*  parent, double forward, double b
 
     double i_row = 0.0;
     for(int row = 0; row <= steps_row; ++row) {
-        Eigen::Vector2d left = bl + i_row * (fl-bl);
-        Eigen::Vector2d right = fr + i_row * (br-fr);
+        Eigen::Vector2d left = bl + i_row * (br-bl);
+        Eigen::Vector2d right = fl + i_row * (fr-fl);
 
         double i_col = 0.0;
         for(int col = 0; col <= steps_col; ++col) {
-- 
2.43.0


From fcb0a0414a85389408b7a890f4f8aeecbc2c7c3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:25 +0000
Subject: [PATCH 38/48] fix: forward-only steering leaves no straight pieces
 owed

---
 include/cslibs_path_planning/generic/SteeringNeighborhood.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/cslibs_path_planning/generic/SteeringNeighborhood.hpp b/include/cslibs_path_planning/generic/SteeringNeighborhood.hpp
index 2400b66..219c381 100644
--- a/include/cslibs_path_planning/generic/SteeringNeighborhood.hpp
+++ b/include/cslibs_path_planning/generic/SteeringNeighborhood.hpp
@@ -223,6 +223,7 @@ struct SteeringNeighborhood :
 
         double r_map = r_world / resolution;
 
+        custom = 0;
         if(moves == SteeringMoves::FORWARD_BACKWARD) {
             bool direction_switch = reference->forward != forward_;
             if(direction_switch) {
-- 
2.43.0


From 91d05985ea836c1bfac39c0fb2295a2ec7a556fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:56:30 +0000
Subject: [PATCH 39/48] fix: turning vehicles can be searched for (start and
 goal nodes are looked up, getStart() and getGoal() are gone)

---
 .../generic/NonHolonomicNeighborhood.hpp               |  2 +-
 .../cslibs_path_planning/generic/SearchAlgorithm.hpp   | 10 ++++++++++
 2 files changed, 11 insertions(+), 1 deletion(-)

diff --git a/include/cslibs_path_planning/generic/NonHolonomicNeighborhood.hpp b/include/cslibs_path_planning/generic/NonHolonomicNeighborhood.hpp
index 409b0b6..9e26d41 100644
--- a/include/cslibs_path_planning/generic/NonHolonomicNeighborhood.hpp
+++ b/include/cslibs_path_planning/generic/NonHolonomicNeighborhood.hpp
@@ -178,7 +178,7 @@ struct NonHolonomicNeighborhoodBase : public NeighborhoodBase
 
     template <class T, class Map, class NodeType>
     static void iterateFreeNeighbors(T& algo, Map& map, NodeType* reference) {
-        bool initial = algo.getStart() == reference || algo.getGoal() == reference;
+        bool initial = algo.isStart(reference) || algo.isGoal(reference);
 
         double map_rotation = map.getMap()->getRotation();
 
diff --git a/include/cslibs_path_planning/generic/SearchAlgorithm.hpp b/include/cslibs_path_planning/generic/SearchAlgorithm.hpp
index 739cf31..63fd1e0 100644
--- a/include/cslibs_path_planning/generic/SearchAlgorithm.hpp
+++ b/include/cslibs_path_planning/generic/SearchAlgorithm.hpp
@@ -166,6 +166,16 @@ public:
 //    }
 
 
+    bool isStart(const NodeT* node) const
+    {
+        return start.find(node) != start.end();
+    }
+
+    bool isGoal(const NodeT* node) const
+    {
+        return goal.find(node) != goal.end();
+    }
+
     OpenNodesManager& getOpenList()
     {
         return open;
-- 
2.43.0


From 445f063103cbbdd5f8fd1b0a499f55292db0b407 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:29:18 +0000
Subject: [PATCH 40/48] fix: an analytic expansion may begin at the start

---
 include/cslibs_path_planning/generic/SearchAlgorithm.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/cslibs_path_planning/generic/SearchAlgorithm.hpp b/include/cslibs_path_planning/generic/SearchAlgorithm.hpp
index 63fd1e0..eb8b140 100644
--- a/include/cslibs_path_planning/generic/SearchAlgorithm.hpp
+++ b/include/cslibs_path_planning/generic/SearchAlgorithm.hpp
@@ -618,10 +618,10 @@ protected:
                 PathT expansion;
                 AnalyticExpansionType::getPath(&expansion);
 
-                NodeT tmp = *current;
-                tmp.theta = expansion.begin()->theta;
-
-                PathT path = backtrack(&tmp);
+                PathT path = backtrack(current);
+                if(!path.empty()) {
+                    path.back().theta = expansion.begin()->theta;
+                }
                 path.insert(path.end(), expansion.begin(), expansion.end());
                 result = path;
                 return true;
-- 
2.43.0


From 8ccc71a25ed04ade7618c6a7ba50945cb46b6545 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:39:59 +0000
Subject: [PATCH 41/48] fix: a cell forgets the heading of an earlier search

---
 include/cslibs_path_planning/generic/Common.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/cslibs_path_planning/generic/Common.hpp b/include/cslibs_path_planning/generic/Common.hpp
index 52d91f0..685a017 100644
--- a/include/cslibs_path_planning/generic/Common.hpp
+++ b/include/cslibs_path_planning/generic/Common.hpp
@@ -94,6 +94,8 @@ struct Node : public PointT {
 
     template <typename V>
     static void init(Node<PointT> &memory, V x, V y) {
+        // forget everything else the point knows, e.g. its orientation
+        static_cast<PointT&>(memory) = PointT();
         memory.x = x;
         memory.y = y;
         memory.distance = INFINITY;
-- 
2.43.0


From eb757695672e242ae54f13f753acb8a6fdeb7e1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:21:23 +0000
Subject: [PATCH 42/48] fix: distance transformation searches can be
 instantiated (start and goal nodes are looked up)

---
 .../cslibs_path_planning/generic/DistanceTransformation.hpp | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/include/cslibs_path_planning/generic/DistanceTransformation.hpp b/include/cslibs_path_planning/generic/DistanceTransformation.hpp
index 5774a24..9b6a27c 100644
--- a/include/cslibs_path_planning/generic/DistanceTransformation.hpp
+++ b/include/cslibs_path_planning/generic/DistanceTransformation.hpp
@@ -36,8 +36,6 @@ public:
     typedef typename Parent::MapT MapT;
 
     using Parent::expansions;
-    using Parent::start;
-    using Parent::goal;
     using Parent::map_;
 
     using Parent::INTERMISSION_N_STEPS;
@@ -72,8 +70,8 @@ protected:
 #define LOOKUP(a,b) map_.lookup(a,b)
 
         // initialize start and goal nodes
-        start = map_.lookup(from);
-        goal = map_.lookup(to);
+        NodeT* start = map_.lookup(from);
+        NodeT* goal = map_.lookup(to);
 
         int w = map_.w;
         int h = map_.h;
-- 
2.43.0


From aded6d999d8706b5d0501afea25c2be16996c13c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:02:38 +0000
Subject: [PATCH 43/48] fix: mazes with cells of one pixel get a grid that fits
 their cells

---
 include/cslibs_path_planning/evaluation/MapGenerators.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/cslibs_path_planning/evaluation/MapGenerators.hpp b/include/cslibs_path_planning/evaluation/MapGenerators.hpp
index 3706ab6..7ebe764 100644
--- a/include/cslibs_path_planning/evaluation/MapGenerators.hpp
+++ b/include/cslibs_path_planning/evaluation/MapGenerators.hpp
@@ -11,8 +11,8 @@ public:
     Maze(int width, cv::Mat orig_map)
         : width(std::max(2, width)), orig_map(orig_map), border(1)
     {
-        w = orig_map.rows / width;
-        h = orig_map.cols / width;
+        w = orig_map.rows / this->width;
+        h = orig_map.cols / this->width;
         N = w * h;
 
         border = std::max(1, width/4);
-- 
2.43.0


From e854d4d6b9f9c52bbcbd5247481105253342619c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:02:38 +0000
Subject: [PATCH 44/48] fix: mazes do not mark cells outside of their grid

---
 include/cslibs_path_planning/evaluation/MapGenerators.hpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/include/cslibs_path_planning/evaluation/MapGenerators.hpp b/include/cslibs_path_planning/evaluation/MapGenerators.hpp
index 7ebe764..1286cdc 100644
--- a/include/cslibs_path_planning/evaluation/MapGenerators.hpp
+++ b/include/cslibs_path_planning/evaluation/MapGenerators.hpp
@@ -21,7 +21,13 @@ public:
     }
 
     virtual void run(const Pt& start, const Pt& goal) {
-        cv::Point s(start.x / width, start.y / width);
+        if(N == 0) {
+            // there is no room for a single cell
+            return;
+        }
+
+        // the last rows and columns of the map may not belong to a cell
+        cv::Point s(std::min<int>(start.x / width, h - 1), std::min<int>(start.y / width, w - 1));
         cv::Point g(goal.x / width, goal.y / width);
 
         expanded = 0;
-- 
2.43.0


From 02333d135aab2f2cd8ff6712f91415212d3127a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:02:38 +0000
Subject: [PATCH 45/48] fix: a maze generator can be run again

---
 include/cslibs_path_planning/evaluation/MapGenerators.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/cslibs_path_planning/evaluation/MapGenerators.hpp b/include/cslibs_path_planning/evaluation/MapGenerators.hpp
index 1286cdc..d2a64dd 100644
--- a/include/cslibs_path_planning/evaluation/MapGenerators.hpp
+++ b/include/cslibs_path_planning/evaluation/MapGenerators.hpp
@@ -31,6 +31,7 @@ public:
         cv::Point g(goal.x / width, goal.y / width);
 
         expanded = 0;
+        reset();
 
         std::stack<cv::Point> open;
         cv::Point current = s;
@@ -76,8 +77,10 @@ protected:
         dy__[1] = -1; dy__[3] = 1;
 
         visited = new int[N];
-        memset(visited, true, (N) * sizeof(int));
+        reset();
+    }
 
+    void reset() {
         for(int y=0; y<w; y++) {
             for(int x=0; x<h; x++) {
                 visited[IDX(x,y)] = false;
-- 
2.43.0


From 6eb66a76709b7670c88c5474a2a89eae31d558d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:03:12 +0000
Subject: [PATCH 46/48] fix: a maze of a single cell is not left blocked

---
 include/cslibs_path_planning/evaluation/MapGenerators.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/cslibs_path_planning/evaluation/MapGenerators.hpp b/include/cslibs_path_planning/evaluation/MapGenerators.hpp
index d2a64dd..779156c 100644
--- a/include/cslibs_path_planning/evaluation/MapGenerators.hpp
+++ b/include/cslibs_path_planning/evaluation/MapGenerators.hpp
@@ -36,6 +36,7 @@ public:
         std::stack<cv::Point> open;
         cv::Point current = s;
         mark(current);
+        free(current);
 
         while(expanded < N) {
             if(hasUnvisitedNeighbor(current)) {
-- 
2.43.0


From bbcd6f267a2856ce3e90cbd53aaadb10d4fe7775 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:41:50 +0000
Subject: [PATCH 47/48] fix: sampling planner dropped valid curves whose cost
 times gain reached 999999

---
 src/sampling/SamplingPlanner.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/sampling/SamplingPlanner.cpp b/src/sampling/SamplingPlanner.cpp
index e666ecf..8c12155 100644
--- a/src/sampling/SamplingPlanner.cpp
+++ b/src/sampling/SamplingPlanner.cpp
@@ -7,6 +7,7 @@
 
 */ 
 #include <float.h>
+#include <limits>
 #include <stdio.h>
 #include <cslibs_path_planning/sampling/SamplingPlanner.h>
 
@@ -35,7 +36,7 @@ Curve* SamplingPlanner::createPath(const Pose2d& start, GoalRegion *region, int
   Pose2d goal;
   Curve* best_curve=0;
   double gain = 1.0;
-  double min_cost = 999999;
+  double min_cost = std::numeric_limits<double>::infinity();
   while (region->getNextGoal(goal, gain)) {
     Pose2d goal_map = pos2map(goal, *map_);
     //std::cout << "goal map pose "<<goal_map.x << " "<<goal_map.y << " "<<goal_map.theta*180.0/M_PI<<"deg" << std::endl;
-- 
2.43.0


From 8fd0b3e5d4a7e9ff82939ea508bd37ef856c46c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:47:11 +0000
Subject: [PATCH 48/48] fix: curves whose weight reaches 999999 are found like
 any other

---
 include/cslibs_path_planning/ReedsShepp/CurveSegment.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/cslibs_path_planning/ReedsShepp/CurveSegment.h b/include/cslibs_path_planning/ReedsShepp/CurveSegment.h
index 6b89b2b..d512321 100644
--- a/include/cslibs_path_planning/ReedsShepp/CurveSegment.h
+++ b/include/cslibs_path_planning/ReedsShepp/CurveSegment.h
@@ -14,8 +14,9 @@
 
 /// SYSTEM
 #include <assert.h>
+#include <limits>
 
-#define NOT_FREE 999999
+#define NOT_FREE std::numeric_limits<double>::infinity()
 
 namespace lib_path
 {
-- 
2.43.0

