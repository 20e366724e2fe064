From 9512407fcbea14d62bde43c488cb140151bf64b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:26 +0000
Subject: [PATCH 01/14] Give external verification access to internals under a
 cfg flag

---
 src/lib.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/lib.rs b/src/lib.rs
index a473200..957092d 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -14,6 +14,15 @@ pub use crate::puzzles::nonogram::{
 };
 pub use crate::puzzles::sudoku::{parse_sudoku, print_sudoku, solve_sudoku, SudokuError};
 
+/// Access to internals for external verification, only with `--cfg puzzle_utils_verif`
+#[cfg(puzzle_utils_verif)]
+#[doc(hidden)]
+pub mod verif_hooks {
+    pub use crate::structures::dancing_links::{DancingLinksError, DancingMatrix};
+    pub use crate::structures::disjoint_set::DisjointSet;
+    pub use crate::util::choose_random;
+}
+
 pub type RgbBuffer = ImageBuffer<Rgb<u8>, Vec<u8>>;
 
 /// Converts a RgbBuffer to a Vec of bytes representing a PNG
-- 
2.43.0


From a67bdb44abfb7efe4330875eff0e52cf2b5f7de0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:40 +0000
Subject: [PATCH 02/14] fix: forget every row that conflicts with a
 pre-selected row

add_solution cleared the row pointers of one column only and then freed
the rows of all columns of the selected row, so a later conflicting
selection (two equal sudoku givens in a row, column or box) used freed
nodes.
---
 src/structures/dancing_links/mod.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/structures/dancing_links/mod.rs b/src/structures/dancing_links/mod.rs
index 7a81f5e..e09e706 100644
--- a/src/structures/dancing_links/mod.rs
+++ b/src/structures/dancing_links/mod.rs
@@ -66,8 +66,10 @@ impl DancingMatrix {
             return Err(DancingLinksError::InvalidRow);
         }
 
-        for node in unsafe { Node::iter_down(Node::header(row)).skip(1) } {
-            self.rows[unsafe { Node::row(node) }] = null_mut();
+        for col in unsafe { Node::iter_right(row) } {
+            for node in unsafe { Node::iter_down(Node::header(col)).skip(1) } {
+                self.rows[unsafe { Node::row(node) }] = null_mut();
+            }
         }
 
         for node in unsafe { Node::iter_right(row) } {
-- 
2.43.0


From 2a466f7475674294a436b9bbbbbc4fa1f72e727f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:33 +0000
Subject: [PATCH 03/14] fix: do not select a row whose pre-selection is refused

---
 src/structures/dancing_links/mod.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/structures/dancing_links/mod.rs b/src/structures/dancing_links/mod.rs
index e09e706..631738c 100644
--- a/src/structures/dancing_links/mod.rs
+++ b/src/structures/dancing_links/mod.rs
@@ -59,13 +59,15 @@ impl DancingMatrix {
             return Err(DancingLinksError::IndexError);
         }
 
-        self.partial_solution.push(row);
-        let row = self.rows[row];
+        let index = row;
+        let row = self.rows[index];
 
         if row.is_null() {
             return Err(DancingLinksError::InvalidRow);
         }
 
+        self.partial_solution.push(index);
+
         for col in unsafe { Node::iter_right(row) } {
             for node in unsafe { Node::iter_down(Node::header(col)).skip(1) } {
                 self.rows[unsafe { Node::row(node) }] = null_mut();
-- 
2.43.0


From 261ed2c74d2a86fcafc7770062edd3d4319cdfc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:37 +0000
Subject: [PATCH 04/14] fix: refuse sudoku givens above 9 instead of solving
 another puzzle

---
 src/puzzles/sudoku/mod.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/puzzles/sudoku/mod.rs b/src/puzzles/sudoku/mod.rs
index f1f9509..ba0cb1f 100644
--- a/src/puzzles/sudoku/mod.rs
+++ b/src/puzzles/sudoku/mod.rs
@@ -78,6 +78,10 @@ pub fn solve_sudoku(puzzle: &[u8]) -> Result<Vec<u8>, SudokuError> {
             continue;
         }
 
+        if value > 9 {
+            return Err(SudokuError::NoSolution);
+        }
+
         let result = matrix.add_solution(index * 9 + (value as usize) - 1);
 
         if matches!(result, Err(DancingLinksError::InvalidRow)) {
-- 
2.43.0


From 9d713d997adb2bdd923034d42642c64c81517461 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:02 +0000
Subject: [PATCH 05/14] fix: name the moves of one-column mazes up and down,
 not left and right

---
 src/puzzles/maze/mod.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/puzzles/maze/mod.rs b/src/puzzles/maze/mod.rs
index dae2c03..6d0c1ac 100644
--- a/src/puzzles/maze/mod.rs
+++ b/src/puzzles/maze/mod.rs
@@ -86,14 +86,14 @@ pub fn create_maze(
 
                 let mut solution = Vec::new();
                 while let PathNode::Path(parent) = path_tree[current] {
-                    solution.push(if parent == current + 1 {
-                        MazeDirection::Left
-                    } else if parent == current + width {
+                    solution.push(if parent == current + width {
                         MazeDirection::Up
-                    } else if parent == current - 1 {
-                        MazeDirection::Right
-                    } else {
+                    } else if parent + width == current {
                         MazeDirection::Down
+                    } else if parent == current + 1 {
+                        MazeDirection::Left
+                    } else {
+                        MazeDirection::Right
                     });
 
                     current = parent;
-- 
2.43.0


From ba6511a23e8e6665c94a1521ccb30f9d87ede136 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:26 +0000
Subject: [PATCH 06/14] fix: draw maze solutions that end in the bottom row

The last check asked for a whole cell below the exit, so the solution of
every created maze was refused.
---
 src/puzzles/maze/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/puzzles/maze/mod.rs b/src/puzzles/maze/mod.rs
index 6d0c1ac..92fcee1 100644
--- a/src/puzzles/maze/mod.rs
+++ b/src/puzzles/maze/mod.rs
@@ -231,7 +231,7 @@ pub fn print_maze_solution(
         }
     }
 
-    if unsolved.width() < x * 10 + 6 || unsolved.height() < y * 10 + 16 {
+    if unsolved.width() < x * 10 + 6 || unsolved.height() < y * 10 + 11 {
         return Err(MazeError::InvalidSolution);
     }
 
-- 
2.43.0


From 0df475e0c664f5cbe503803ebc1a1f4d43bc601d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:05 +0000
Subject: [PATCH 07/14] fix: draw maze solutions that come back to the left
 column or the top row

---
 src/puzzles/maze/mod.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/puzzles/maze/mod.rs b/src/puzzles/maze/mod.rs
index 92fcee1..6c90aad 100644
--- a/src/puzzles/maze/mod.rs
+++ b/src/puzzles/maze/mod.rs
@@ -207,7 +207,7 @@ pub fn print_maze_solution(
                 y += 1;
             }
             MazeDirection::Left => {
-                if x * 10 < 15 || unsolved.height() < y * 10 + 6 {
+                if x == 0 || unsolved.height() < y * 10 + 6 {
                     return Err(MazeError::InvalidSolution);
                 }
 
@@ -218,7 +218,7 @@ pub fn print_maze_solution(
                 x -= 1;
             }
             MazeDirection::Up => {
-                if unsolved.width() < x * 10 + 6 || y * 10 < 15 {
+                if unsolved.width() < x * 10 + 6 || y == 0 {
                     return Err(MazeError::InvalidSolution);
                 }
 
-- 
2.43.0


From 9bc20ba158c83627c81a24a846ac64f60ac30978 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:52 +0000
Subject: [PATCH 08/14] fix: refuse maze dimensions whose image cannot exist
 instead of overflowing

---
 src/puzzles/maze/mod.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/puzzles/maze/mod.rs b/src/puzzles/maze/mod.rs
index 6c90aad..77c7a6e 100644
--- a/src/puzzles/maze/mod.rs
+++ b/src/puzzles/maze/mod.rs
@@ -136,7 +136,12 @@ pub fn print_maze(width: u32, height: u32, grid: &[MazeNode]) -> Result<RgbBuffe
         return Err(MazeError::InvalidDimensions);
     }
 
-    let mut image = RgbImage::from_pixel(width * 10 + 1, height * 10 + 1, WHITE_PIXEL);
+    let pixels = |cells: u32| cells.checked_mul(10)?.checked_add(1);
+    let (Some(image_width), Some(image_height)) = (pixels(width), pixels(height)) else {
+        return Err(MazeError::InvalidDimensions);
+    };
+
+    let mut image = RgbImage::from_pixel(image_width, image_height, WHITE_PIXEL);
 
     for row in 0..image.height() {
         image.put_pixel(0, row, BLACK_PIXEL);
-- 
2.43.0


From 58eca947b3d1df02d64532abb5d8e4062ba76b19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:46 +0000
Subject: [PATCH 09/14] fix: solve nonograms with a zero in a clue instead of
 panicking

The parser accepts 0 for a line without filled cells.
---
 src/puzzles/nonogram/right_left.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/puzzles/nonogram/right_left.rs b/src/puzzles/nonogram/right_left.rs
index f872a6f..e0af651 100644
--- a/src/puzzles/nonogram/right_left.rs
+++ b/src/puzzles/nonogram/right_left.rs
@@ -19,7 +19,7 @@ impl RuleMachine {
     pub fn new(rule: &[usize]) -> Self {
         let mut left_states = vec![Node::Start, Node::End];
 
-        for &value in rule {
+        for &value in rule.iter().filter(|&&value| value != 0) {
             left_states.extend(vec![Node::Fill; value].into_iter());
             left_states.push(Node::Space);
         }
@@ -28,7 +28,7 @@ impl RuleMachine {
 
         let mut right_states = vec![Node::Start, Node::End];
 
-        for &value in rule.iter().rev() {
+        for &value in rule.iter().rev().filter(|&&value| value != 0) {
             right_states.extend(vec![Node::Fill; value].into_iter());
             right_states.push(Node::Space);
         }
-- 
2.43.0


From 1763f3e6b32b4db3fe5f6daefc41f77005dbd89e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:50 +0000
Subject: [PATCH 10/14] fix: report nonograms without rows or columns as empty
 instead of panicking

---
 src/puzzles/nonogram/mod.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/puzzles/nonogram/mod.rs b/src/puzzles/nonogram/mod.rs
index 977a1ec..40bbe52 100644
--- a/src/puzzles/nonogram/mod.rs
+++ b/src/puzzles/nonogram/mod.rs
@@ -72,6 +72,10 @@ pub fn solve_nonogram(col: &[Vec<usize>], row: &[Vec<usize>]) -> Result<Vec<bool
     let width = col.len();
     let height = row.len();
 
+    if width == 0 || height == 0 {
+        return Err(NonogramError::EmptyPuzzle);
+    }
+
     let mut grid = vec![Square::Blank; width * height];
 
     right_left(&mut grid, col, row)?;
-- 
2.43.0


From fa548f61c392d0d178ba316539cb5fe79d4abd04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:15 +0000
Subject: [PATCH 11/14] fix: refuse nonogram clues that cannot fit before
 allocating for them

---
 src/puzzles/nonogram/mod.rs | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/src/puzzles/nonogram/mod.rs b/src/puzzles/nonogram/mod.rs
index 40bbe52..039bb08 100644
--- a/src/puzzles/nonogram/mod.rs
+++ b/src/puzzles/nonogram/mod.rs
@@ -76,6 +76,22 @@ pub fn solve_nonogram(col: &[Vec<usize>], row: &[Vec<usize>]) -> Result<Vec<bool
         return Err(NonogramError::EmptyPuzzle);
     }
 
+    let fits = |rule: &[usize], length: usize| {
+        let size = rule
+            .iter()
+            .filter(|&&value| value != 0)
+            .fold(0usize, |size, &value| {
+                size.saturating_add(value)
+                    .saturating_add(usize::from(size != 0))
+            });
+
+        size <= length
+    };
+
+    if !col.iter().all(|rule| fits(rule, height)) || !row.iter().all(|rule| fits(rule, width)) {
+        return Err(NonogramError::NoSolution);
+    }
+
     let mut grid = vec![Square::Blank; width * height];
 
     right_left(&mut grid, col, row)?;
-- 
2.43.0


From a5af1170a73df06fdb68e0969089b24234ad6ac0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:21 +0000
Subject: [PATCH 12/14] fix: refuse nonogram rules whose sum overflows

---
 src/puzzles/nonogram/mod.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/puzzles/nonogram/mod.rs b/src/puzzles/nonogram/mod.rs
index 039bb08..11bee89 100644
--- a/src/puzzles/nonogram/mod.rs
+++ b/src/puzzles/nonogram/mod.rs
@@ -35,7 +35,7 @@ pub fn parse_nonogram_rules(rules: &str, bound: usize) -> Result<Vec<Vec<usize>>
     rules
         .split(';')
         .map(|rule| {
-            let mut size = 0;
+            let mut size = 0u128;
 
             let values = rule
                 .split(',')
@@ -44,15 +44,15 @@ pub fn parse_nonogram_rules(rules: &str, bound: usize) -> Result<Vec<Vec<usize>>
                         .parse::<usize>()
                         .or(Err(NonogramError::InvalidRule(x.into())))?;
 
-                    size += value;
+                    size += value as u128;
 
                     Ok(value)
                 })
                 .collect::<Result<Vec<usize>, NonogramError>>()?;
 
-            size += values.len() - 1;
+            size += values.len() as u128 - 1;
 
-            if values.is_empty() || size > bound {
+            if values.is_empty() || size > bound as u128 {
                 return Err(NonogramError::InvalidRuleDimension);
             }
 
-- 
2.43.0


From 309901893ecc4fca36e1477fcb5197607f393605 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:25 +0000
Subject: [PATCH 13/14] fix: refuse nonogram solutions of absurd dimensions
 instead of overflowing

---
 src/puzzles/nonogram/mod.rs | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/puzzles/nonogram/mod.rs b/src/puzzles/nonogram/mod.rs
index 11bee89..9e7bd5e 100644
--- a/src/puzzles/nonogram/mod.rs
+++ b/src/puzzles/nonogram/mod.rs
@@ -226,12 +226,11 @@ pub fn print_nonogram_solution(
     mut image: RgbBuffer,
     grid: &[bool],
 ) -> Result<RgbBuffer, NonogramError> {
-    let rule_width = max(150, width * 10);
-    let rule_height = max(150, height * 10);
+    let pixels = |cells: u32| u64::from(cells) * 50 + max(150, u64::from(cells) * 10);
 
-    if grid.len() != width as usize * height as usize
-        || image.width() != width * 50 + rule_width
-        || image.height() != height * 50 + rule_height
+    if grid.len() as u64 != u64::from(width) * u64::from(height)
+        || u64::from(image.width()) != pixels(width)
+        || u64::from(image.height()) != pixels(height)
     {
         return Err(NonogramError::InvalidDimensions);
     }
-- 
2.43.0


From 471e7f177d8c92892bea1992b3fbcd19d49de3b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:29 +0000
Subject: [PATCH 14/14] fix: guess the nonogram squares that line solving
 leaves open

recursive_backtrack was empty, so open squares were returned as unfilled:
solvable puzzles got wrong answers and some without solution got one.
---
 src/puzzles/nonogram/mod.rs | 26 ++++++++++++++++++++++++--
 1 file changed, 24 insertions(+), 2 deletions(-)

diff --git a/src/puzzles/nonogram/mod.rs b/src/puzzles/nonogram/mod.rs
index 9e7bd5e..736ebc3 100644
--- a/src/puzzles/nonogram/mod.rs
+++ b/src/puzzles/nonogram/mod.rs
@@ -95,7 +95,10 @@ pub fn solve_nonogram(col: &[Vec<usize>], row: &[Vec<usize>]) -> Result<Vec<bool
     let mut grid = vec![Square::Blank; width * height];
 
     right_left(&mut grid, col, row)?;
-    recursive_backtrack(&mut grid, col, row);
+
+    if !recursive_backtrack(&mut grid, col, row) {
+        return Err(NonogramError::NoSolution);
+    }
 
     Ok(grid
         .iter()
@@ -136,7 +139,26 @@ fn right_left(
     Ok(())
 }
 
-fn recursive_backtrack(grid: &mut [Square], col: &[Vec<usize>], row: &[Vec<usize>]) {}
+/// Guesses the squares that are still blank, and returns whether a solution was found
+fn recursive_backtrack(grid: &mut [Square], col: &[Vec<usize>], row: &[Vec<usize>]) -> bool {
+    let Some(index) = grid.iter().position(|square| *square == Square::Blank) else {
+        return true;
+    };
+
+    for guess in [Square::Filled, Square::Blocked] {
+        let mut attempt = grid.to_vec();
+        attempt[index] = guess;
+
+        if right_left(&mut attempt, col, row).is_ok()
+            && recursive_backtrack(&mut attempt, col, row)
+        {
+            grid.clone_from_slice(&attempt);
+            return true;
+        }
+    }
+
+    false
+}
 
 pub fn print_nonogram(
     width: u32,
-- 
2.43.0

