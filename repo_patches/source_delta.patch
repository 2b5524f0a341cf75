From cf1de725b8e808ebd1dd5ac428ce3c8f11a87e41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:31 +0000
Subject: [PATCH 01/50] fix: forget the ce of pre-flags once the game is back
 to Ready

Unflagging the last pre-flag cleared every click counter and the list of
mines already flagged, but not ce, so flagging the same mine again counted
a second ce.
---
 base/src/videos/minesweeper_board.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/base/src/videos/minesweeper_board.rs b/base/src/videos/minesweeper_board.rs
index e85f783..6d291ed 100644
--- a/base/src/videos/minesweeper_board.rs
+++ b/base/src/videos/minesweeper_board.rs
@@ -540,6 +540,7 @@ impl<T> MinesweeperBoard<T> {
                                     self.game_board_state = GameBoardState::Ready;
                                     self.flag = 0;
                                     self.flagedList.clear();
+                                    self.ce = 0;
                                     self.double = 0;
                                     self.left = 0;
                                     self.right = 0;
-- 
2.43.0


From 8668d6c5ab43974a44197e2ab736871f94e32729 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:31 +0000
Subject: [PATCH 02/50] fix: a right press outside the board must not cost a
 right click

While playing it entered UpDownNotFlag although no right click had been
counted; chording next then decremented `right`, underflowing at 0. Use
UpDown, as the Ready and PreFlaging states do.
---
 base/src/videos/minesweeper_board.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/base/src/videos/minesweeper_board.rs b/base/src/videos/minesweeper_board.rs
index 6d291ed..7f14c89 100644
--- a/base/src/videos/minesweeper_board.rs
+++ b/base/src/videos/minesweeper_board.rs
@@ -669,7 +669,7 @@ impl<T> MinesweeperBoard<T> {
                         }
                         return self.right_click(pos.0, pos.1);
                     } else {
-                        self.mouse_state = MouseState::UpDownNotFlag;
+                        self.mouse_state = MouseState::UpDown;
                     }
                 }
                 MouseState::DownUp => self.mouse_state = MouseState::Chording,
-- 
2.43.0


From ea7efd705e0d16ed1581b9a4e903cbc89af7e0e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:31 +0000
Subject: [PATCH 03/50] fix: middle releases and toggled right presses outside
 the board

`mr`, `m` and `r` indexed the displayed board with the out-of-board position
and panicked; every other event accepts it.
---
 base/src/videos/minesweeper_board.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/base/src/videos/minesweeper_board.rs b/base/src/videos/minesweeper_board.rs
index 7f14c89..8c52532 100644
--- a/base/src/videos/minesweeper_board.rs
+++ b/base/src/videos/minesweeper_board.rs
@@ -725,6 +725,10 @@ impl<T> MinesweeperBoard<T> {
                 }
                 // 以下情况其实是不可能的
                 MouseState::UpUp => {
+                    if pos.0 == self.row && pos.1 == self.column {
+                        self.mouse_state = MouseState::UpDown;
+                        return Ok(0);
+                    }
                     if self.game_board[pos.0][pos.1] < 10 {
                         self.mouse_state = MouseState::UpDownNotFlag;
                     } else {
@@ -742,11 +746,17 @@ impl<T> MinesweeperBoard<T> {
             }
             "mr" => {
                 self.middle_hold = false;
+                if pos.0 == self.row && pos.1 == self.column {
+                    return Ok(0);
+                }
                 return self.chording_click(pos.0, pos.1);
             }
             "m" => {
                 self.middle_hold = !self.middle_hold;
                 if !self.middle_hold {
+                    if pos.0 == self.row && pos.1 == self.column {
+                        return Ok(0);
+                    }
                     return self.chording_click(pos.0, pos.1);
                 }
             }
-- 
2.43.0


From 75605b8addecc066f85db93c26612f540cb50c4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:31 +0000
Subject: [PATCH 04/50] fix: reset also forgets the pre-flag count and the
 middle button

A stale pre-flag count kept the next game from returning to Ready.
---
 base/src/videos/minesweeper_board.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/base/src/videos/minesweeper_board.rs b/base/src/videos/minesweeper_board.rs
index 8c52532..2622e15 100644
--- a/base/src/videos/minesweeper_board.rs
+++ b/base/src/videos/minesweeper_board.rs
@@ -142,6 +142,8 @@ impl MinesweeperBoard<Vec<Vec<i32>>> {
         self.game_board_state = GameBoardState::Ready;
         self.pointer_x = 0;
         self.pointer_y = 0;
+        self.pre_flag_num = 0;
+        self.middle_hold = false;
     }
 }
 
-- 
2.43.0


From 5a90bbb0cdbe82410a57ba729593692de4a95da1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:16 +0000
Subject: [PATCH 05/50] fix: count an opening in the solved 3BV once, when it
 is completely open

An opening interrupted by flags was credited as soon as the clicked cell's
component held no flag, even when closed zeros of it stayed out of reach of
the flood, and credited again when those were opened.
---
 base/src/videos/minesweeper_board.rs | 57 +++++++++++-----------------
 1 file changed, 23 insertions(+), 34 deletions(-)

diff --git a/base/src/videos/minesweeper_board.rs b/base/src/videos/minesweeper_board.rs
index 2622e15..7ddae58 100644
--- a/base/src/videos/minesweeper_board.rs
+++ b/base/src/videos/minesweeper_board.rs
@@ -178,11 +178,9 @@ impl<T> MinesweeperBoard<T> {
         // refresh_board(&self.board, &mut self.game_board, vec![(x, y)]);
         match self.board[x][y] {
             0 => {
-                if self.cell_is_op_completed(x, y, &mut vec![vec![false; self.column]; self.row]) {
-                    self.bbbv_solved += 1;
-                }
                 self.ce += 1;
                 refresh_board(&self.board, &mut self.game_board, vec![(x, y)]);
+                self.bbbv_solved += self.op_num_completed(&vec![(x, y)]);
                 if self.is_win() {
                     self.game_board_state = GameBoardState::Win;
                 }
@@ -295,8 +293,8 @@ impl<T> MinesweeperBoard<T> {
             }
             self.ce += 1;
             self.bbbv_solved += surround3BV;
-            self.bbbv_solved += self.op_num_around_cell(x, y);
-            refresh_board(&self.board, &mut self.game_board, chording_cells);
+            refresh_board(&self.board, &mut self.game_board, chording_cells.clone());
+            self.bbbv_solved += self.op_num_completed(&chording_cells);
             // if flag_ch_op {
             //     if self.cell_is_op_completed(surround_op_x, surround_op_y) {
             //         self.bbbv_solved += 1;
@@ -329,57 +327,48 @@ impl<T> MinesweeperBoard<T> {
         }
         true
     }
-    // 在传入格子上双击以后，将新打开的（完整）op数。（已打开的不算）
-    // 这个格子不是雷、双击是合法的
-    // 只可能返回0，1，2
-    fn op_num_around_cell(&self, x: usize, y: usize) -> usize
+    // 刚刚（左键或双击）打开了cells以后，随之完全打开的op数。（先前已完全打开的不算）
+    // 这是为了防范一种特殊情况，在空上面右击标雷使得空打开的时候不能完全打开；没有完全打开的空，不应计入3bv。
+    fn op_num_completed(&self, cells: &Vec<(usize, usize)>) -> usize
     where
         T: std::ops::Index<usize> + BoardSize,
         T::Output: std::ops::Index<usize, Output = i32>,
     {
         let mut op_num = 0;
         let mut game_board_mark = vec![vec![false; self.column]; self.row];
-        for i in max(1, x) - 1..min(self.row, x + 2) {
-            for j in max(1, y) - 1..min(self.column, y + 2) {
-                if self.game_board[i][j] == 10 && self.board[i][j] == 0 && !game_board_mark[i][j] {
-                    if self.cell_is_op_completed(i, j, &mut game_board_mark) {
-                        op_num += 1;
-                    }
+        for &(x, y) in cells {
+            if self.board[x][y] == 0 && !game_board_mark[x][y] {
+                if self.cell_is_op_completed(x, y, &mut game_board_mark) {
+                    op_num += 1;
                 }
             }
         }
         op_num
     }
 
-    // 是局面上能够完全打开的op（在游戏局面上是没有打开的状态，点下后能够完全打开）
-    // 这是为了防范一种特殊情况，在空上面右击标雷使得空打开的时候不能完全打开；没有完全打开的空，不应计入3bv。
+    // (x, y)所在的op是否已经完全打开
     fn cell_is_op_completed(&self, x: usize, y: usize, game_board_mark: &mut Vec<Vec<bool>>) -> bool
     where
         T: std::ops::Index<usize> + BoardSize,
         T::Output: std::ops::Index<usize, Output = i32>,
     {
-        // let mut game_board_mark = vec![vec![false; self.column]; self.row];
+        let mut completed = true;
         let mut poses = vec![(x, y)];
-        while let Some(top) = poses.pop() {
-            let (i, j) = top;
-            if self.board[i][j] > 0 {
-                continue;
-            } else if self.board[i][j] == 0 {
-                if self.game_board[i][j] == 11 {
-                    return false;
-                }
-                game_board_mark[i][j] = true;
-                for m in max(1, i) - 1..min(self.row, i + 2) {
-                    for n in max(1, j) - 1..min(self.column, j + 2) {
-                        if (i != m || j != n) && (!game_board_mark[m][n]) {
-                            poses.push((m, n));
-                        }
+        game_board_mark[x][y] = true;
+        while let Some((i, j)) = poses.pop() {
+            if self.game_board[i][j] != 0 {
+                completed = false;
+            }
+            for m in max(1, i) - 1..min(self.row, i + 2) {
+                for n in max(1, j) - 1..min(self.column, j + 2) {
+                    if self.board[m][n] == 0 && !game_board_mark[m][n] {
+                        game_board_mark[m][n] = true;
+                        poses.push((m, n));
                     }
                 }
-            } else {
             }
         }
-        true
+        completed
     }
     /// 返回的值的含义是：0：没有任何作用的操作，例如左键数字、踩雷。  
     /// 1：推进了局面，但没有改变ai对局面的判断，特指标雷。  
-- 
2.43.0


From 7e42b7fdf8ab4b69f2c5b1936126f9899e2206e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:58 +0000
Subject: [PATCH 06/50] fix: Board keeps the metrics it has computed

---
 base/src/board.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/base/src/board.rs b/base/src/board.rs
index 12f2280..1029cfa 100644
--- a/base/src/board.rs
+++ b/base/src/board.rs
@@ -209,22 +209,25 @@ impl Board {
             self.openings = cal_op(&self.board);
             self.has_cal_openings = true;
         }
+        self.bbbv = a + self.openings;
         self.has_cal_bbbv = true;
-        return a + self.openings;
+        return self.bbbv;
     }
     pub fn get_op(&mut self) -> usize {
         if self.has_cal_openings {
             return self.openings;
         }
+        self.openings = cal_op(&self.board);
         self.has_cal_openings = true;
-        return cal_op(&self.board);
+        return self.openings;
     }
     pub fn get_isl(&mut self) -> usize {
         if self.has_cal_islands {
             return self.islands;
         }
+        self.islands = cal_isl(&self.board);
         self.has_cal_islands = true;
-        return cal_isl(&self.board);
+        return self.islands;
     }
     fn cal_cell_nums(&mut self) {
         let ans = cal_cell_nums(&self.board);
-- 
2.43.0


From ac3ef80443869df4847612166591419c0379cd3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:58 +0000
Subject: [PATCH 07/50] fix: iterating over a SafeBoard yields its cells

---
 base/src/safe_board.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/base/src/safe_board.rs b/base/src/safe_board.rs
index 72a6a88..67ed663 100644
--- a/base/src/safe_board.rs
+++ b/base/src/safe_board.rs
@@ -121,6 +121,7 @@ impl SafeBoard {
             safe_board.push(SafeBoardRow::new(row));
         }
         self.value = safe_board;
+        self.counter = 0;
     }
 }
 
@@ -172,7 +173,7 @@ impl Iterator for SafeBoardRow {
                 self.value_3[self.counter],
             );
             self.counter += 1;
-            Some(t)
+            Some(self.table[t as usize])
         } else {
             None
         }
-- 
2.43.0


From 77bbd9a459e56a4a3d985dafaefbf947b706736d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:07 +0000
Subject: [PATCH 08/50] fix: opening area of the start on boards with one row
 or column

---
 base/src/algorithms.rs | 14 ++------------
 base/src/utils.rs      | 14 ++------------
 2 files changed, 4 insertions(+), 24 deletions(-)

diff --git a/base/src/algorithms.rs b/base/src/algorithms.rs
index 608f86a..ea7d3db 100644
--- a/base/src/algorithms.rs
+++ b/base/src/algorithms.rs
@@ -803,18 +803,8 @@ pub fn laymine_solvable_adjust(
 ) -> (Vec<Vec<i32>>, bool) {
     // 利用局面调整算法，无猜埋雷
     let mut board;
-    let mut area_op = 9;
-    if x0 == 0 || y0 == 0 || x0 == row - 1 || y0 == column - 1 {
-        if x0 == 0 && y0 == 0
-            || x0 == 0 && y0 == column - 1
-            || x0 == row - 1 && y0 == 0
-            || x0 == row - 1 && y0 == column - 1
-        {
-            area_op = 4;
-        } else {
-            area_op = 6;
-        }
-    }
+    // 起手位置及其邻居的格子数
+    let area_op = (min(row, x0 + 2) - (max(1, x0) - 1)) * (min(column, y0 + 2) - (max(1, y0) - 1));
     if row * column - area_op < minenum {
         // 雷数太多以致起手无法开空，此时放弃无猜，返回任意一种局面
         let t = laymine(row, column, minenum, x0, y0);
diff --git a/base/src/utils.rs b/base/src/utils.rs
index 001bb21..c98e695 100644
--- a/base/src/utils.rs
+++ b/base/src/utils.rs
@@ -509,18 +509,8 @@ pub fn laymine_op(
     X0: usize,
     Y0: usize,
 ) -> Vec<Vec<i32>> {
-    let mut areaOp = 9;
-    if X0 == 0 || Y0 == 0 || X0 == row - 1 || Y0 == column - 1 {
-        if X0 == 0 && Y0 == 0
-            || X0 == 0 && Y0 == column - 1
-            || X0 == row - 1 && Y0 == 0
-            || X0 == row - 1 && Y0 == column - 1
-        {
-            areaOp = 4;
-        } else {
-            areaOp = 6;
-        }
-    }
+    // 起手位置及其邻居的格子数
+    let areaOp = (min(row, X0 + 2) - (max(1, X0) - 1)) * (min(column, Y0 + 2) - (max(1, Y0) - 1));
     let area = row * column - areaOp;
     let mut board1_dim = vec![0; area - minenum];
     board1_dim.append(&mut vec![-1; minenum]);
-- 
2.43.0


From 511a350111098e43b92000b883b62fe6c7d765b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:46 +0000
Subject: [PATCH 09/50] fix: enumeration also reports the mines of merged cells

The table counts, per merged cell, the cases in which one of its cells is
a mine, so a group that is all mines has the total number of cases.
---
 base/src/algorithms.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/base/src/algorithms.rs b/base/src/algorithms.rs
index ea7d3db..200ff26 100644
--- a/base/src/algorithms.rs
+++ b/base/src/algorithms.rs
@@ -606,8 +606,7 @@ pub fn solve_enumerate(
                 for kk in &comb_relp_s[i][jj] {
                     not_mine.push(xs[i][*kk]);
                 }
-            } else if s_num == table_minenum_i[1].iter().sum::<usize>() * comb_relp_s[i][jj].len()
-            {
+            } else if s_num == table_minenum_i[1].iter().sum::<usize>() {
                 for kk in &comb_relp_s[i][jj] {
                     is_mine.push(xs[i][*kk]);
                 }
-- 
2.43.0


From a3cb3ddcf08b78b30ee68f21be6562ed7957952f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:18 +0000
Subject: [PATCH 10/50] fix: GameBoard forgets the previous position, and
 enum_is_mine is filled

set_game_board kept every cached answer of the previous position, and the
mines found by enumeration were dropped.
---
 base/src/board.rs | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/base/src/board.rs b/base/src/board.rs
index 1029cfa..af625ad 100644
--- a/base/src/board.rs
+++ b/base/src/board.rs
@@ -63,6 +63,14 @@ impl GameBoard {
         }
         self.game_board = board.clone();
         self.game_board_marked = game_board_marked;
+        // 换了局面，此前缓存的结果全部作废
+        self.is_marked = false;
+        self.has_poss = false;
+        self.poss.clear();
+        self.basic_not_mine.clear();
+        self.basic_is_mine.clear();
+        self.enum_not_mine.clear();
+        self.enum_is_mine.clear();
     }
     fn mark(&mut self) {
         // 一旦被标记，那么就会用3大判雷引擎都分析一遍
@@ -90,15 +98,7 @@ impl GameBoard {
                 }
             }
         }
-        self.enum_not_mine = solve_enumerate(&a_s, &x_s, &b_s).0;
-        // println!("yyyyyyyyyyyyyyyyy");
-        for i in 0..self.game_board_marked.len() {
-            for j in 0..self.game_board_marked[0].len() {
-                if self.game_board_marked[i][j] == 11 && !self.basic_is_mine.contains(&(i, j)) {
-                    self.enum_is_mine.push((i, j));
-                }
-            }
-        }
+        (self.enum_not_mine, self.enum_is_mine) = solve_enumerate(&a_s, &x_s, &b_s);
         self.is_marked = true;
     }
     pub fn get_poss(&mut self) -> &Vec<Vec<f64>> {
-- 
2.43.0


From 065bc5f2063cc39d79547e13ef489256558f66a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:18 +0000
Subject: [PATCH 11/50] fix: a mine density below the marked mines must not
 underflow

cal_possibility with a fraction panicked when more mines were marked than
the fraction stands for.
---
 base/src/algorithms.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/base/src/algorithms.rs b/base/src/algorithms.rs
index 200ff26..3e03432 100644
--- a/base/src/algorithms.rs
+++ b/base/src/algorithms.rs
@@ -296,7 +296,7 @@ pub fn cal_possibility(
     let minenum = if minenum < 1.0 {
         let mn = ((board_of_game.len() * board_of_game[0].len()) as f64 * minenum) as usize;
         min(
-            max(mn - is_minenum, min_minenum),
+            max(mn.saturating_sub(is_minenum), min_minenum),
             max_minenum + unknow_block,
         )
     } else {
-- 
2.43.0


From fc433ec60adb89d2aad4897903ffa47b9042dc17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:18 +0000
Subject: [PATCH 12/50] fix: the reported largest mine count does not depend on
 the one asked for

The border's maximum was clamped to the requested count before it was used
for the reported range.
---
 base/src/algorithms.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/base/src/algorithms.rs b/base/src/algorithms.rs
index 3e03432..eaac041 100644
--- a/base/src/algorithms.rs
+++ b/base/src/algorithms.rs
@@ -308,6 +308,7 @@ pub fn cal_possibility(
         }
     };
 
+    let max_total_minenum = max_minenum + is_minenum + unknow_block;
     max_minenum = min(max_minenum, minenum);
     if max_minenum < min_minenum {
         return Err(3); // 这种错误，例如一共10个雷，却出现了3个不相邻的5
@@ -411,7 +412,7 @@ pub fn cal_possibility(
         [
             min_minenum + is_minenum,
             minenum + is_minenum,
-            max_minenum + is_minenum + unknow_block,
+            max_total_minenum,
         ],
         exceed_len,
     ))
-- 
2.43.0


From 6dd94567c69db4d4c32170bac5e00668036796ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:18 +0000
Subject: [PATCH 13/50] fix: report an impossible mine count instead of NaN
 probabilities

---
 base/src/algorithms.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/base/src/algorithms.rs b/base/src/algorithms.rs
index eaac041..ba2505c 100644
--- a/base/src/algorithms.rs
+++ b/base/src/algorithms.rs
@@ -377,6 +377,9 @@ pub fn cal_possibility(
         t.mul_big_number(&unknow_mine_s_num[i]);
         T.add_big_number(&t);
     }
+    if T.a == 0.0 {
+        return Err(3); // 没有任何一种情况的总雷数恰好等于minenum，例如雷数超过了格子数
+    }
     // 第五步，计算局面总情况数
 
     for i in 0..block_num {
-- 
2.43.0


From 2723613d178af527fa54464aaa04c1c65e91158c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:28 +0000
Subject: [PATCH 14/50] fix: refresh_matrixses keeps the blocks of one region
 together

Only blocks with a larger index were followed, so a region could be split
into several groups, and a block reached twice left an empty block behind.
---
 base/src/utils.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/base/src/utils.rs b/base/src/utils.rs
index c98e695..d40b07e 100644
--- a/base/src/utils.rs
+++ b/base/src/utils.rs
@@ -385,6 +385,9 @@ pub fn refresh_matrixses(
 
         while !buffer.is_empty() {
             let t = buffer.pop().unwrap();
+            if As[t].is_empty() {
+                continue; // 已经归入了某一组
+            }
             Ases.last_mut().unwrap().push(vec![]);
             Ases.last_mut()
                 .unwrap()
@@ -403,7 +406,7 @@ pub fn refresh_matrixses(
                 .last_mut()
                 .unwrap()
                 .append(&mut bs[t]);
-            for idj in t..As.len() {
+            for idj in 0..As.len() {
                 if adjacency_matrix[t][idj] {
                     buffer.push(idj);
                 }
-- 
2.43.0


From 03b7bea52e9f2136f2aced1eb6bfbebaf6d237c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:30 +0000
Subject: [PATCH 15/50] fix: a click away from the numbers is judged for itself

is_guess_while_needless judged an interior cell by the certainty of a border
cell of its region, so it could be called a sure mine.
---
 base/src/algorithms.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/base/src/algorithms.rs b/base/src/algorithms.rs
index ba2505c..87fe5e5 100644
--- a/base/src/algorithms.rs
+++ b/base/src/algorithms.rs
@@ -1344,8 +1344,8 @@ pub fn is_guess_while_needless(board_of_game: &mut Vec<Vec<i32>>, xy: &(usize, u
         }
         flag_need = n.is_empty();
         match board_of_game[xy.0][xy.1] {
-            12 => return 1,
-            11 => return 4,
+            12 if flag_border => return 1,
+            11 if flag_border => return 4,
             _ => {
                 let (n, _) = solve_minus(As, xs, bs, board_of_game).unwrap();;
                 if !flag_border && !n.is_empty() {
@@ -1353,8 +1353,8 @@ pub fn is_guess_while_needless(board_of_game: &mut Vec<Vec<i32>>, xy: &(usize, u
                 }
                 flag_need = flag_need && n.is_empty();
                 match board_of_game[xy.0][xy.1] {
-                    12 => return 1,
-                    11 => return 4,
+                    12 if flag_border => return 1,
+                    11 if flag_border => return 4,
                     _ => {
                         let (n, i) = solve_enumerate(As, xs, bs);
                         if !flag_border && !n.is_empty() {
@@ -1363,7 +1363,7 @@ pub fn is_guess_while_needless(board_of_game: &mut Vec<Vec<i32>>, xy: &(usize, u
                         flag_need = flag_need && n.is_empty();
                         if n.contains(&xy) {
                             return 1;
-                        } else if i.contains(&xy) {
+                        } else if flag_border && i.contains(&xy) {
                             return 4;
                         } else if flag_need {
                             return 2;
-- 
2.43.0


From e4667142e3cdc6d21aa383b0af63e130acf29068 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:55 +0000
Subject: [PATCH 16/50] fix: report a number short of cells instead of
 panicking

---
 base/src/algorithms.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/base/src/algorithms.rs b/base/src/algorithms.rs
index 87fe5e5..829d00c 100644
--- a/base/src/algorithms.rs
+++ b/base/src/algorithms.rs
@@ -204,6 +204,14 @@ pub fn solve_direct(
         Some(_) => return Err(6),
         None => {}
     }
+    // 周围已经没有未知格子，却还缺雷的数字
+    for b in 0..bs.len() {
+        for i in 0..bs[b].len() {
+            if bs[b][i] > 0 && As[b][i].iter().all(|&x| x == 0) {
+                return Err(6);
+            }
+        }
+    }
     chunk_matrixes(As, xs, bs);
     Ok((not_mine, is_mine))
 }
-- 
2.43.0


From 28f18729794cd8e3c4f870b6a4eb43e14380ab91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:28 +0000
Subject: [PATCH 17/50] fix: report a number with too many marked mines instead
 of panicking

---
 base/src/utils.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/base/src/utils.rs b/base/src/utils.rs
index d40b07e..baa0198 100644
--- a/base/src/utils.rs
+++ b/base/src/utils.rs
@@ -990,6 +990,9 @@ fn cal_table_minenum_recursion_step(
             matrix_b_remain[*cell_i],
             combination_relationship[idx].len() as i32,
         );
+        if upper_limit_i < 0 {
+            return Ok(false); // 数字周围的雷已经超过了该数字，没有合法的情况
+        }
         let mut lower_limit_i = matrix_b_remain[*cell_i];
         for j in &equation_to_cell_map[*cell_i] {
             if j > &idx {
-- 
2.43.0


From 28f4c06a28c5a53c7b612bda92c8152a4a59af40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:07 +0000
Subject: [PATCH 18/50] fix: laymine_solvable_adjust lays the number of mines
 it was asked for

The recursion may stop with cells it has not decided; all of them became
mines, whatever the number still to lay.
---
 base/src/algorithms.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/base/src/algorithms.rs b/base/src/algorithms.rs
index 829d00c..a30dddb 100644
--- a/base/src/algorithms.rs
+++ b/base/src/algorithms.rs
@@ -861,13 +861,17 @@ pub fn laymine_solvable_adjust(
     if !flag || b.is_empty() {
         return (laymine_op(row, column, minenum, x0, y0), false);
     }
+    // 递归结束时还没埋的格子，补足剩余的雷
+    let laid = b.iter().flatten().filter(|x| **x == -1).count();
+    let mut cells_rest = vec![vec![]];
     for i in 0..row {
         for j in 0..column {
             if b[i][j] == -10 {
-                b[i][j] = -1;
+                cells_rest[0].push((i, j));
             }
         }
     }
+    adjust_the_area_on_board(&mut b, &cells_rest, minenum - laid);
     // 最后，算数字
     for i in 0..row {
         for j in 0..column {
-- 
2.43.0


From 02954428247fa4832fc17786e817da7700b67003 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:07 +0000
Subject: [PATCH 19/50] fix: laymine_solvable_adjust claims success only for a
 solvable board

---
 base/src/algorithms.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/base/src/algorithms.rs b/base/src/algorithms.rs
index a30dddb..b340762 100644
--- a/base/src/algorithms.rs
+++ b/base/src/algorithms.rs
@@ -886,6 +886,8 @@ pub fn laymine_solvable_adjust(
             }
         }
     }
+    // 递归提前结束时，不保证剩下的部分也能判雷
+    let flag = is_solvable(&b, x0, y0);
     (b, flag)
 }
 
-- 
2.43.0


From 15937f33f29a97bde55c8d69962299c307d11358 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:08 +0000
Subject: [PATCH 20/50] fix: the threaded generator returns the success of any
 of its threads

It took the first message, which may be the failure of a thread that had no
attempts left while another one was still going to succeed.
---
 base/src/algorithms.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/base/src/algorithms.rs b/base/src/algorithms.rs
index b340762..9d381d2 100644
--- a/base/src/algorithms.rs
+++ b/base/src/algorithms.rs
@@ -756,7 +756,10 @@ pub fn laymine_solvable_thread(
     for handle in handles {
         handle.join().unwrap();
     }
-    let received = rx.recv().unwrap(); // 尝试次数仅仅为单个线程的次数，并不准
+    drop(tx);
+    // 只要有一个线程成功，就用它的局面，不论哪个线程先发送
+    let results: Vec<_> = rx.iter().collect();
+    let received = results.iter().find(|x| x.1).unwrap_or(&results[0]);
     for i in 0..row {
         for j in 0..column {
             game_board[i][j] = received.0[i][j];
-- 
2.43.0


From c9012a5d190b67107dac6c264038fc76227c296a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:56 +0000
Subject: [PATCH 21/50] fix: set_checksum works before the file is generated,
 and a new game drops the old checksum

---
 base/src/videos/base_video.rs | 27 +++++++++++++++------------
 1 file changed, 15 insertions(+), 12 deletions(-)

diff --git a/base/src/videos/base_video.rs b/base/src/videos/base_video.rs
index 766973c..6f88dba 100644
--- a/base/src/videos/base_video.rs
+++ b/base/src/videos/base_video.rs
@@ -438,6 +438,8 @@ impl BaseVideo<Vec<Vec<i32>>> {
         self.video_action_state_recorder.clear();
         self.game_board_stream.clear();
         self.raw_data.clear();
+        self.checksum = [0; 32];
+        self.has_checksum = false;
         self.static_params = StaticParams::default();
         self.game_dynamic_params = GameDynamicParams::default();
         self.video_dynamic_params = VideoDynamicParams::default();
@@ -641,6 +643,8 @@ impl BaseVideo<SafeBoard> {
         self.video_action_state_recorder.clear();
         self.game_board_stream.clear();
         self.raw_data.clear();
+        self.checksum = [0; 32];
+        self.has_checksum = false;
         self.static_params = StaticParams::default();
         self.game_dynamic_params = GameDynamicParams::default();
         self.video_dynamic_params = VideoDynamicParams::default();
@@ -1362,20 +1366,19 @@ impl<T> BaseVideo<T> {
         {
             return Err(());
         };
-        if !self.has_checksum {
-            *self.raw_data.last_mut().unwrap() = 0;
-            self.raw_data
-                .append(&mut checksum.clone().to_vec().to_owned());
-            self.checksum = checksum;
-            self.has_checksum = true;
-            return Ok(0);
-        } else {
-            let ptr = self.raw_data.len() - 32;
-            for i in 0..32 {
-                self.raw_data[ptr + i] = checksum[i];
+        // 若已经生成了二进制数据，则同时修改其末尾
+        if !self.raw_data.is_empty() {
+            if !self.has_checksum {
+                *self.raw_data.last_mut().unwrap() = 0;
+                self.raw_data.extend_from_slice(&checksum);
+            } else {
+                let ptr = self.raw_data.len() - 32;
+                self.raw_data[ptr..].copy_from_slice(&checksum);
             }
-            return Ok(0);
         }
+        self.checksum = checksum;
+        self.has_checksum = true;
+        Ok(0)
     }
     pub fn get_raw_data(&self) -> Result<Vec<u8>, ()> {
         if self.game_board_state != GameBoardState::Win
-- 
2.43.0


From ff7f310b2daff4d33f70e420dd7926c079641249 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:56 +0000
Subject: [PATCH 22/50] fix: a game decided by its first opening starts and
 ends at that click

---
 base/src/videos/base_video.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/base/src/videos/base_video.rs b/base/src/videos/base_video.rs
index 6f88dba..4cc99a5 100644
--- a/base/src/videos/base_video.rs
+++ b/base/src/videos/base_video.rs
@@ -817,7 +817,8 @@ impl<T> BaseVideo<T> {
                     time = time_ms as f64 / 1000.0;
                 }
             }
-            GameBoardState::Playing => {
+            // 第一次有效的左键抬起可能直接结束游戏
+            GameBoardState::Playing | GameBoardState::Win | GameBoardState::Loss => {
                 if old_state != GameBoardState::Playing {
                     if old_state == GameBoardState::Ready {
                         self.video_start_instant = step_instant;
@@ -837,6 +838,8 @@ impl<T> BaseVideo<T> {
             }
             // 不可能
             GameBoardState::Display => {}
+        }
+        match self.game_board_state {
             GameBoardState::Loss => {
                 let t_ms = time_ms - self.game_start_ms;
                 self.end_time = SystemTime::now()
@@ -871,6 +874,7 @@ impl<T> BaseVideo<T> {
                 self.video_dynamic_params.etime = t;
                 self.gather_params_after_game(t);
             }
+            _ => {}
         }
         // 维护path，挺复杂的
         let mut path = 0.0;
-- 
2.43.0


From 34935ef986675bbbeac6af55bbb3a5b94b6279fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:46 +0000
Subject: [PATCH 23/50] fix: analyse takes the opening as time zero also when
 it ends the game

---
 base/src/videos/base_video.rs | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/base/src/videos/base_video.rs b/base/src/videos/base_video.rs
index 4cc99a5..19d83a4 100644
--- a/base/src/videos/base_video.rs
+++ b/base/src/videos/base_video.rs
@@ -462,8 +462,8 @@ impl BaseVideo<Vec<Vec<i32>>> {
             // 控制svi的生命周期
             let svi = &mut self.video_action_state_recorder[ide];
             svi.prior_game_board_id = self.game_board_stream.len() - 1;
+            let old_state = b.game_board_state;
             if svi.mouse != "mv" {
-                let old_state = b.game_board_state;
                 // println!("{:?}, {:?}", svi.mouse, svi.y);
                 let u_level = b
                     .step(
@@ -480,11 +480,16 @@ impl BaseVideo<Vec<Vec<i32>>> {
                     let mut g_b = GameBoard::new(self.mine_num);
                     g_b.set_game_board(&b.game_board);
                     self.game_board_stream.push(g_b);
-                    if old_state != GameBoardState::Playing {
-                        self.delta_time = svi.time;
-                    }
                     // println!("{:?}, {:?}", self.game_board_stream.len(), svi.mouse);
                 }
+                // 第一次有效的左键抬起，可能直接踩雷
+                if (old_state == GameBoardState::Ready || old_state == GameBoardState::PreFlaging)
+                    && (b.game_board_state == GameBoardState::Playing
+                        || b.game_board_state == GameBoardState::Win
+                        || b.game_board_state == GameBoardState::Loss)
+                {
+                    self.delta_time = svi.time;
+                }
             }
             svi.next_game_board_id = self.game_board_stream.len() - 1;
             svi.mouse_state = b.mouse_state.clone();
-- 
2.43.0


From 8e4712b72b20efb85c0382a397376d59c3772e63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:46 +0000
Subject: [PATCH 24/50] fix: the path of a live game and of its replay agree

---
 base/src/videos/base_video.rs | 22 ++++++++++++++--------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/base/src/videos/base_video.rs b/base/src/videos/base_video.rs
index 19d83a4..cd35cc3 100644
--- a/base/src/videos/base_video.rs
+++ b/base/src/videos/base_video.rs
@@ -504,9 +504,10 @@ impl BaseVideo<Vec<Vec<i32>>> {
             svi.key_dynamic_params.isl_solved = 0;
             let svi = &self.video_action_state_recorder[ide];
             // 第一下操作不可能是在局面外的
-            if b.game_board_state == GameBoardState::Playing
-                || b.game_board_state == GameBoardState::Win
-                || b.game_board_state == GameBoardState::Loss
+            // 和游戏时一致，从第一次有效的左键抬起之后开始累计
+            if old_state == GameBoardState::Playing
+                || old_state == GameBoardState::Win
+                || old_state == GameBoardState::Loss
             {
                 if svi.y >= self.height as u16 * self.cell_pixel_size as u16
                     && svi.x >= self.width as u16 * self.cell_pixel_size as u16
@@ -891,11 +892,16 @@ impl<T> BaseVideo<T> {
                     || p.x as usize >= self.width * self.cell_pixel_size as usize)
                 {
                     path = p.path;
-                    path += ((pos.0 as f64 - p.y as f64).powf(2.0)
-                        + (pos.1 as f64 - p.x as f64).powf(2.0))
-                    .powf(0.5)
-                        * 16.0
-                        / (self.cell_pixel_size as f64);
+                    // 和录像播放时一致，局面外的操作不计入路径
+                    if pos.0 < self.height * self.cell_pixel_size as usize
+                        || pos.1 < self.width * self.cell_pixel_size as usize
+                    {
+                        path += ((pos.0 as f64 - p.y as f64).powf(2.0)
+                            + (pos.1 as f64 - p.x as f64).powf(2.0))
+                        .powf(0.5)
+                            * 16.0
+                            / (self.cell_pixel_size as f64);
+                    }
                     // println!("path, {:?}", path);
                     // self.current_event_id += 1;
                     // println!("pos.0:{:?}; p.y:{:?}; {:?}; {:?}", pos.0,p.y,pos.1,p.x);
-- 
2.43.0


From 81300690437b551476f918c8b69504d8218221bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:46 +0000
Subject: [PATCH 25/50] fix: analysing a video again does not append its boards
 a second time

---
 base/src/videos/base_video.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/base/src/videos/base_video.rs b/base/src/videos/base_video.rs
index cd35cc3..4d164a5 100644
--- a/base/src/videos/base_video.rs
+++ b/base/src/videos/base_video.rs
@@ -455,6 +455,7 @@ impl BaseVideo<Vec<Vec<i32>>> {
         );
         // self.minesweeper_board
         let mut b = MinesweeperBoard::<Vec<Vec<i32>>>::new(self.board.clone());
+        self.game_board_stream.clear();
         let mut first_game_board = GameBoard::new(self.mine_num);
         first_game_board.set_game_board(&vec![vec![10; self.width]; self.height]);
         self.game_board_stream.push(first_game_board);
-- 
2.43.0


From dd86e4f1b6f056fcf51e42ed8928dd452bb667dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:13 +0000
Subject: [PATCH 26/50] fix: an evf file with an empty board is a parse error

---
 base/src/videos/evf_video.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/base/src/videos/evf_video.rs b/base/src/videos/evf_video.rs
index 1ffba40..963e62c 100644
--- a/base/src/videos/evf_video.rs
+++ b/base/src/videos/evf_video.rs
@@ -49,6 +49,9 @@ impl EvfVideo {
         self.data.is_fair = the_byte & 0b0010_0000 != 0;
         self.data.height = self.data.get_u8()? as usize;
         self.data.width = self.data.get_u8()? as usize;
+        if self.data.height == 0 || self.data.width == 0 {
+            return Err(ErrReadVideoReason::InvalidBoardSize);
+        }
         self.data.mine_num = self.data.get_u16()? as usize;
         if self.data.height == 8 && self.data.width == 8 && self.data.mine_num == 10 {
             self.data.level = 3;
-- 
2.43.0


From 9756f02178e2d1b2091f4331006d26749fcbf105 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:13 +0000
Subject: [PATCH 27/50] fix: writing a parsed evf file again keeps its checksum

---
 base/src/videos/base_video.rs | 2 +-
 base/src/videos/evf_video.rs  | 1 +
 2 files changed, 2 insertions(+), 1 deletion(-)

diff --git a/base/src/videos/base_video.rs b/base/src/videos/base_video.rs
index 4d164a5..5cdec34 100644
--- a/base/src/videos/base_video.rs
+++ b/base/src/videos/base_video.rs
@@ -327,7 +327,7 @@ pub struct BaseVideo<T> {
     // 允许设置最终成绩，解析录像文件时用
     allow_set_rtime: bool,
     // 是否有checksum
-    has_checksum: bool,
+    pub(crate) has_checksum: bool,
     // 播放录像文件时用，按几倍放大来播放，涉及回报的鼠标位置
     video_playing_pix_size_k: f64,
 }
diff --git a/base/src/videos/evf_video.rs b/base/src/videos/evf_video.rs
index 963e62c..29ccbf3 100644
--- a/base/src/videos/evf_video.rs
+++ b/base/src/videos/evf_video.rs
@@ -205,6 +205,7 @@ impl EvfVideo {
             }
         }
         self.data.checksum = csum;
+        self.data.has_checksum = have_checksum;
         self.data.can_analyse = true;
         return Ok(());
     }
-- 
2.43.0


From a36ba577820e25a0917b1743a15d940cae72e03d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:48 +0000
Subject: [PATCH 28/50] fix: an avf file with a mine outside the board is a
 parse error

---
 base/src/videos/avf_video.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/base/src/videos/avf_video.rs b/base/src/videos/avf_video.rs
index 3c58127..8688d04 100644
--- a/base/src/videos/avf_video.rs
+++ b/base/src/videos/avf_video.rs
@@ -106,6 +106,9 @@ impl AvfVideo {
         for _ in 0..self.data.mine_num {
             let c = self.data.get_u8()? as usize;
             let d = self.data.get_u8()? as usize;
+            if c < 1 || d < 1 || c > self.data.height || d > self.data.width {
+                return Err(ErrReadVideoReason::InvalidMinePosition);
+            }
             self.data.board[c - 1][d - 1] = -1;
         }
 
-- 
2.43.0


From dbacb78992ea55f887aa843b78b48681471e59c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:48 +0000
Subject: [PATCH 29/50] fix: rmv files with impossible sizes or without events
 are parse errors

---
 base/src/videos/rmv_video.rs | 22 ++++++++++++++++++----
 1 file changed, 18 insertions(+), 4 deletions(-)

diff --git a/base/src/videos/rmv_video.rs b/base/src/videos/rmv_video.rs
index 4de14b6..989cdc5 100644
--- a/base/src/videos/rmv_video.rs
+++ b/base/src/videos/rmv_video.rs
@@ -101,6 +101,9 @@ impl RmvVideo {
             // 2 beta和更早的版本里没有3bv和时间戳
         } else {
             self.data.static_params.bbbv = 0;
+            if result_string_size < 3 {
+                return Err(ErrReadVideoReason::InvalidParams);
+            }
             for _ in 0..result_string_size - 3 {
                 self.data.get_u8()?;
             }
@@ -147,6 +150,9 @@ impl RmvVideo {
         self.data.height = self.data.get_u8()?.into();
         self.data.mine_num = self.data.get_u16()?.into();
 
+        if self.data.width == 0 || self.data.height == 0 {
+            return Err(ErrReadVideoReason::InvalidBoardSize);
+        }
         self.data.board = vec![vec![0; self.data.width]; self.data.height];
 
         // Every 2 bytes is x,y with 0,0 being the top left corner
@@ -183,8 +189,14 @@ impl RmvVideo {
             false
         };
         self.data.mode = self.data.get_u8()? as u16;
-        self.data.level = self.data.get_u8()? + 3;
+        self.data.level = match self.data.get_u8()?.checked_add(3) {
+            Some(v) => v,
+            None => return Err(ErrReadVideoReason::InvalidLevel),
+        };
 
+        if properties_size < 4 {
+            return Err(ErrReadVideoReason::InvalidParams);
+        }
         self.data.offset += (properties_size - 4) as usize;
 
         // 是不是第一个操作。录像里省略了第一个左键按下。
@@ -243,9 +255,11 @@ impl RmvVideo {
                 return Err(ErrReadVideoReason::InvalidParams);
             }
         }
-        self.data
-            .set_rtime(self.data.video_action_state_recorder.last().unwrap().time)
-            .unwrap();
+        let rtime = match self.data.video_action_state_recorder.last() {
+            Some(v) => v.time,
+            None => return Err(ErrReadVideoReason::InvalidVideoEvent),
+        };
+        self.data.set_rtime(rtime).unwrap();
         self.data.software = "Viennasweeper".as_bytes().to_vec();
         self.data.can_analyse = true;
         return Ok(());
-- 
2.43.0


From 237a077016f4a9b5ac6a008bebdb09f90080f273 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:48 +0000
Subject: [PATCH 30/50] fix: flags set before the game are read with row and
 column in order from rmv files

---
 base/src/videos/rmv_video.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/base/src/videos/rmv_video.rs b/base/src/videos/rmv_video.rs
index 989cdc5..2197b46 100644
--- a/base/src/videos/rmv_video.rs
+++ b/base/src/videos/rmv_video.rs
@@ -175,8 +175,8 @@ impl RmvVideo {
                     .video_action_state_recorder
                     .push(VideoActionStateRecorder {
                         mouse: "pf".to_string(),
-                        x: d * 16,
-                        y: c * 16,
+                        x: c * 16,
+                        y: d * 16,
                         ..VideoActionStateRecorder::default()
                     });
             }
-- 
2.43.0


From c951b2a5464fad2d4e946d1ac5530ea706c2ba8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:48 +0000
Subject: [PATCH 31/50] fix: mvf files with a mine outside the board or without
 events are parse errors

---
 base/src/videos/mvf_video.rs | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/base/src/videos/mvf_video.rs b/base/src/videos/mvf_video.rs
index c37a8a9..1e7e4c8 100644
--- a/base/src/videos/mvf_video.rs
+++ b/base/src/videos/mvf_video.rs
@@ -44,13 +44,18 @@ impl MvfVideo {
         // int board_sz,i,pos;
         self.data.width = self.data.get_u8()?.into();
         self.data.height = self.data.get_u8()?.into();
+        if self.data.width == 0 || self.data.height == 0 {
+            return Err(ErrReadVideoReason::InvalidBoardSize);
+        }
         self.data.board = vec![vec![0; self.data.width]; self.data.height];
 
         self.data.mine_num = self.data.get_u16()?.into();
         for _ in 0..self.data.mine_num {
             let w = (self.data.get_u8()? as i32 + add) as usize;
             let h = (self.data.get_u8()? as i32 + add) as usize;
-            // 要检查
+            if h >= self.data.height || w >= self.data.width {
+                return Err(ErrReadVideoReason::InvalidMinePosition);
+            }
             self.data.board[h][w] = -1;
         }
         cal_board_numbers(&mut self.data.board);
@@ -116,7 +121,10 @@ impl MvfVideo {
         let _second = self.data.get_u8()?;
 
         // //Next 2 bytes are Level and Mode
-        self.data.level = self.data.get_u8()? + 2;
+        self.data.level = match self.data.get_u8()?.checked_add(2) {
+            Some(v) => v,
+            None => return Err(ErrReadVideoReason::InvalidLevel),
+        };
         let mode = self.data.get_u8()?;
         if mode == 1 {
             self.data.mode = 0;
@@ -204,6 +212,9 @@ impl MvfVideo {
         // println!("s: {:?}, byte: {:?}, bit: {:?}", s, byte, bit);
 
         let event_size = self.data.get_u24()?;
+        if event_size == 0 {
+            return Err(ErrReadVideoReason::InvalidVideoEvent);
+        }
         let mut prev_rb;
         let mut prev_mb;
         let mut prev_lb;
-- 
2.43.0


From 24ae085fdc4bbb0660324e00a7b8837408c56d63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:48 +0000
Subject: [PATCH 32/50] fix: the probabilities shown before the opening have
 the shape of the board

---
 base/src/videos/base_video.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/base/src/videos/base_video.rs b/base/src/videos/base_video.rs
index 5cdec34..014d5d2 100644
--- a/base/src/videos/base_video.rs
+++ b/base/src/videos/base_video.rs
@@ -1141,11 +1141,11 @@ impl<T> BaseVideo<T> {
         let mut id = self.current_event_id;
         loop {
             if self.video_action_state_recorder[id].useful_level < 2 {
-                id -= 1;
-                if id <= 0 {
+                if id == 0 {
                     let p = self.mine_num as f64 / (self.height * self.width) as f64;
-                    return vec![vec![p; self.height]; self.width];
+                    return vec![vec![p; self.width]; self.height];
                 }
+                id -= 1;
             } else {
                 // println!("{:?}, {:?}",self.current_event_id, self.video_action_state_recorder.len());
                 return self.game_board_stream[self.video_action_state_recorder
-- 
2.43.0


From 9a9bbc9d8e88845847e49931d28bbe4736d3af7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:48 +0000
Subject: [PATCH 33/50] fix: seeking twice to the same time does not move the
 playback back

---
 base/src/videos/base_video.rs | 36 ++++++++++-------------------------
 1 file changed, 10 insertions(+), 26 deletions(-)

diff --git a/base/src/videos/base_video.rs b/base/src/videos/base_video.rs
index 014d5d2..c29188b 100644
--- a/base/src/videos/base_video.rs
+++ b/base/src/videos/base_video.rs
@@ -1233,32 +1233,16 @@ impl<T> BaseVideo<T> {
             self.current_time = self.get_video_end_time().unwrap()
         }
         time += self.delta_time;
-        if time > self.video_action_state_recorder[self.current_event_id].time {
-            loop {
-                if self.current_event_id >= self.video_action_state_recorder.len() - 1 {
-                    // 最后一帧
-                    break;
-                }
-                self.current_event_id += 1;
-                if self.video_action_state_recorder[self.current_event_id].time <= time {
-                    continue;
-                } else {
-                    self.current_event_id -= 1;
-                    break;
-                }
-            }
-        } else {
-            loop {
-                if self.current_event_id == 0 {
-                    break;
-                }
-                self.current_event_id -= 1;
-                if self.video_action_state_recorder[self.current_event_id].time > time {
-                    continue;
-                } else {
-                    break;
-                }
-            }
+        // 定位到不晚于该时刻的最后一个事件
+        while self.current_event_id + 1 < self.video_action_state_recorder.len()
+            && self.video_action_state_recorder[self.current_event_id + 1].time <= time
+        {
+            self.current_event_id += 1;
+        }
+        while self.current_event_id > 0
+            && self.video_action_state_recorder[self.current_event_id].time > time
+        {
+            self.current_event_id -= 1;
         }
         // self.current_time =
         //     self.video_action_state_recorder[self.current_event_id].time - self.delta_time;
-- 
2.43.0


From d950129ef6a9f9e93fb5bdaf3f8aa23e218275ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:58 +0000
Subject: [PATCH 34/50] fix: judging a double click in the last column does not
 look outside the board

---
 base/src/utils.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/base/src/utils.rs b/base/src/utils.rs
index baa0198..459a136 100644
--- a/base/src/utils.rs
+++ b/base/src/utils.rs
@@ -1729,7 +1729,7 @@ pub fn is_good_chording(board_of_game: &Vec<Vec<i32>>, pos: (usize, usize)) -> b
             return false;
         }
     }
-    if pos.1 < column + 1 {
+    if pos.1 + 1 < column {
         if mid_num < surround_cell_num(board_of_game, (pos.0, pos.1 + 1)) {
             return false;
         }
-- 
2.43.0


From ed8dc98c806d4c56946c3db85a0e5371440ce9a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:04 +0000
Subject: [PATCH 35/50] fix: the survival annotation keeps what was already
 noted at the last event

---
 base/src/videos/analyse_methods.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/base/src/videos/analyse_methods.rs b/base/src/videos/analyse_methods.rs
index 04a12f0..984ac9b 100644
--- a/base/src/videos/analyse_methods.rs
+++ b/base/src/videos/analyse_methods.rs
@@ -240,7 +240,12 @@ pub fn analyse_survive_poss(video: &mut BaseVideo<Vec<Vec<i32>>>) {
     } else {
         message.push_str("1;");
     }
-    video.video_action_state_recorder.last_mut().unwrap().comments = message;
+    video
+        .video_action_state_recorder
+        .last_mut()
+        .unwrap()
+        .comments
+        .push_str(&message);
 }
 
 #[derive(Debug, PartialEq)]
-- 
2.43.0


From 62d98966d36a6b9a302a6b51f4f88bda2cdd49a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:04 +0000
Subject: [PATCH 36/50] fix: taking a flag off is not annotated as judging a
 mine

---
 base/src/videos/analyse_methods.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/base/src/videos/analyse_methods.rs b/base/src/videos/analyse_methods.rs
index 984ac9b..46620e8 100644
--- a/base/src/videos/analyse_methods.rs
+++ b/base/src/videos/analyse_methods.rs
@@ -58,6 +58,10 @@ pub fn analyse_jump_judge(video: &mut BaseVideo<Vec<Vec<i32>>>) {
                 );
             }
         } else if video.video_action_state_recorder[ide].useful_level == 1 && video.video_action_state_recorder[ide].mouse == "rc" {
+            // 取消标雷不算
+            if video.game_board_stream[video.video_action_state_recorder[ide].prior_game_board_id].game_board[x][y] != 10 {
+                continue;
+            }
             if !video.game_board_stream[video.video_action_state_recorder[ide].prior_game_board_id]
                 .get_basic_is_mine()
                 .contains(&(x, y))
-- 
2.43.0


From 3ce5496e6102c0b87c4834676db3004abfd2d294 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:04 +0000
Subject: [PATCH 37/50] fix: a guess is annotated as needless only if some cell
 was known to be safe

---
 base/src/videos/analyse_methods.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/base/src/videos/analyse_methods.rs b/base/src/videos/analyse_methods.rs
index 46620e8..2fe1d87 100644
--- a/base/src/videos/analyse_methods.rs
+++ b/base/src/videos/analyse_methods.rs
@@ -94,6 +94,13 @@ pub fn analyse_needless_guess(video: &mut BaseVideo<Vec<Vec<i32>>>) {
                 && !video.game_board_stream[video.video_action_state_recorder[ide].prior_game_board_id]
                     .get_enum_not_mine()
                     .contains(&(x, y))
+                // 有安全的格子可以判时，才是不必要的猜雷
+                && !(video.game_board_stream[video.video_action_state_recorder[ide].prior_game_board_id]
+                    .get_basic_not_mine()
+                    .is_empty()
+                    && video.game_board_stream[video.video_action_state_recorder[ide].prior_game_board_id]
+                        .get_enum_not_mine()
+                        .is_empty())
             {
                 video.video_action_state_recorder[ide].comments = format!(
                     "{}{}",
-- 
2.43.0


From 7cfd6146a8fe4f0e31ce63755f2d12dd6b7d1db2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:27 +0000
Subject: [PATCH 38/50] fix: rqp, qg and ce/s of a finished live game use its
 playing time

---
 base/src/videos/base_video.rs | 21 +++++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/base/src/videos/base_video.rs b/base/src/videos/base_video.rs
index c29188b..b02b600 100644
--- a/base/src/videos/base_video.rs
+++ b/base/src/videos/base_video.rs
@@ -1615,14 +1615,22 @@ impl<T> BaseVideo<T> {
         if bbbv_solved == 0 {
             return Ok(0.0);
         }
-        Ok(self.current_time.powf(2.0) / bbbv_solved as f64)
+        if self.game_board_state == GameBoardState::Display {
+            Ok(self.current_time.powf(2.0) / bbbv_solved as f64)
+        } else {
+            Ok(self.game_dynamic_params.rtime.powf(2.0) / bbbv_solved as f64)
+        }
     }
     pub fn get_qg(&self) -> Result<f64, ()> {
         let bbbv_solved = self.get_bbbv_solved()?;
         if bbbv_solved == 0 {
             return Ok(0.0);
         }
-        Ok(self.current_time.powf(1.7) / bbbv_solved as f64)
+        if self.game_board_state == GameBoardState::Display {
+            Ok(self.current_time.powf(1.7) / bbbv_solved as f64)
+        } else {
+            Ok(self.game_dynamic_params.rtime.powf(1.7) / bbbv_solved as f64)
+        }
     }
     pub fn get_ce(&self) -> Result<usize, ()> {
         match self.game_board_state {
@@ -1640,10 +1648,15 @@ impl<T> BaseVideo<T> {
     }
     pub fn get_ce_s(&self) -> Result<f64, ()> {
         let ce = self.get_ce()?;
-        if self.current_time < 0.00099 {
+        let t = if self.game_board_state == GameBoardState::Display {
+            self.current_time
+        } else {
+            self.game_dynamic_params.rtime
+        };
+        if t < 0.00099 {
             return Ok(0.0);
         }
-        Ok(ce as f64 / self.current_time)
+        Ok(ce as f64 / t)
     }
     pub fn get_corr(&self) -> Result<f64, ()> {
         let ce = self.get_ce()?;
-- 
2.43.0


From 1e3ece54c230c03340dc252870c8e43bb7857826 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:21 +0000
Subject: [PATCH 39/50] fix: the second event of an mvf file is a move only if
 the mouse moved

---
 base/src/videos/mvf_video.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/base/src/videos/mvf_video.rs b/base/src/videos/mvf_video.rs
index 1e7e4c8..410ad1d 100644
--- a/base/src/videos/mvf_video.rs
+++ b/base/src/videos/mvf_video.rs
@@ -227,8 +227,6 @@ impl MvfVideo {
         // println!("rb: {:?}, mb: {:?}, lb: {:?}", rb, mb, lb);
         let mut x = 0u16;
         let mut y = 0u16;
-        let mut prev_x = 0u16;
-        let mut prev_y = 0u16;
         let mut ths = 0;
         let mut sec = 0;
         let mouse;
@@ -263,6 +261,8 @@ impl MvfVideo {
                 y,
                 ..VideoActionStateRecorder::default()
             });
+        let mut prev_x = x;
+        let mut prev_y = y;
         for _ in 0..event_size - 1 {
             for ii in 0..5 {
                 e[ii] = self.data.get_u8()?;
-- 
2.43.0


From 5e6f93ec42d5fc20357559478d2eb4f8bcc4794e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:44:15 +0000
Subject: [PATCH 40/50] fix: analysing flag-and-chord passages panicked on a
 right press outside the board

---
 base/src/videos/analyse_methods.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/base/src/videos/analyse_methods.rs b/base/src/videos/analyse_methods.rs
index 2fe1d87..87e7b34 100644
--- a/base/src/videos/analyse_methods.rs
+++ b/base/src/videos/analyse_methods.rs
@@ -288,9 +288,10 @@ pub fn analyse_super_fl_local(video: &mut BaseVideo<Vec<Vec<i32>>>) {
         //     // println!("---{:?}", video.video_action_state_recorder[ide].useful_level);
         // }
 
+        // 先判断有效性，在局面外的右键不能索引局面
         if video.video_action_state_recorder[ide].mouse == "rc"
-            && video.game_board_stream[video.video_action_state_recorder[ide].prior_game_board_id].game_board[x][y] == 10
             && video.video_action_state_recorder[ide].useful_level == 1
+            && video.game_board_stream[video.video_action_state_recorder[ide].prior_game_board_id].game_board[x][y] == 10
         {
             // 正确的标雷
             match state {
-- 
2.43.0


From 45e5e40734bfcee4d44aed2faa20ff4349aa405b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:53:16 +0000
Subject: [PATCH 41/50] fix: is_valid panicked when the start time of a
 Viennasweeper video is missing or no number

---
 base/src/videos/base_video.rs | 18 ++++++++----------
 1 file changed, 8 insertions(+), 10 deletions(-)

diff --git a/base/src/videos/base_video.rs b/base/src/videos/base_video.rs
index b02b600..b4174e6 100644
--- a/base/src/videos/base_video.rs
+++ b/base/src/videos/base_video.rs
@@ -1933,16 +1933,14 @@ impl<T> BaseVideo<T> {
         if self.software == "Arbiter".as_bytes().to_vec() {
             // 对于arbiter，开源界没有鉴定的能力，只能追溯
         } else if self.software == "Viennasweeper".as_bytes().to_vec() {
-            let start_time = ((self.start_time[0] - 48) as u64) * 1000000000
-                + ((self.start_time[1] - 48) as u64) * 100000000
-                + ((self.start_time[2] - 48) as u64) * 10000000
-                + ((self.start_time[3] - 48) as u64) * 1000000
-                + ((self.start_time[4] - 48) as u64) * 100000
-                + ((self.start_time[5] - 48) as u64) * 10000
-                + ((self.start_time[6] - 48) as u64) * 1000
-                + ((self.start_time[7] - 48) as u64) * 100
-                + ((self.start_time[8] - 48) as u64) * 10
-                + (self.start_time[9] - 48) as u64;
+            // 开始时间是秒级以上精度的时间戳，前10位是秒
+            let start_time = match self.start_time.get(..10) {
+                Some(t) if t.iter().all(|c| c.is_ascii_digit()) => {
+                    t.iter().fold(0u64, |acc, c| acc * 10 + (c - 48) as u64)
+                }
+                // 读不出开始时间，报不确定
+                _ => return 3,
+            };
             if start_time > 1682265600 {
                 // 2023-04-24 00:00:00后被禁
                 return 1;
-- 
2.43.0


From dc121a4bcf44ffa3b9cbabc5828250bd26587c94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:53:16 +0000
Subject: [PATCH 42/50] fix: sample_3BVs_exp dropped the games left over by the
 division among 16 threads

---
 base/src/algorithms.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/base/src/algorithms.rs b/base/src/algorithms.rs
index 9d381d2..699429b 100644
--- a/base/src/algorithms.rs
+++ b/base/src/algorithms.rs
@@ -1081,9 +1081,10 @@ fn adjust_the_area_on_board(
 pub fn sample_3BVs_exp(x0: usize, y0: usize, n: usize) -> [usize; 382] {
     // 从标准高级中采样计算3BV
     // 16线程计算
-    let n0 = n / 16;
     let mut threads = vec![];
-    for _i in 0..16 {
+    for i in 0..16 {
+        // 除不尽时，余数分给前几个线程
+        let n0 = n / 16 + (i < n % 16) as usize;
         let join_item = thread::spawn(move || -> [usize; 382] { laymine_study_exp(x0, y0, n0) });
         threads.push(join_item);
     }
-- 
2.43.0


From ef8e877a07a58ab3b26adb3131168ebd6fa6cf90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:57:40 +0000
Subject: [PATCH 43/50] fix: reading the time or the rates of a live game right
 after the opening underflowed

---
 base/src/videos/base_video.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/base/src/videos/base_video.rs b/base/src/videos/base_video.rs
index b4174e6..f371c40 100644
--- a/base/src/videos/base_video.rs
+++ b/base/src/videos/base_video.rs
@@ -1175,7 +1175,7 @@ impl<T> BaseVideo<T> {
             GameBoardState::Playing => {
                 let now = Instant::now();
                 // return now.duration_since(self.game_start_instant).as_millis() as f64 / 1000.0;
-                let time_ms = now.duration_since(self.video_start_instant).as_millis() as u32;
+                let time_ms = time_ms_between(now, self.video_start_instant);
                 return (time_ms - self.game_start_ms) as f64 / 1000.0;
             }
             GameBoardState::PreFlaging => {
@@ -1445,7 +1445,7 @@ impl<T> BaseVideo<T> {
             #[cfg(any(feature = "py", feature = "rs"))]
             GameBoardState::Playing => {
                 let now = Instant::now();
-                let t_ms = now.duration_since(self.video_start_instant).as_millis() as u32;
+                let t_ms = time_ms_between(now, self.video_start_instant);
                 self.get_left() as f64 * 1000.0 / (t_ms - self.game_start_ms) as f64
             }
             #[cfg(any(feature = "js"))]
@@ -1465,7 +1465,7 @@ impl<T> BaseVideo<T> {
             #[cfg(any(feature = "py", feature = "rs"))]
             GameBoardState::Playing => {
                 let now = Instant::now();
-                let t_ms = now.duration_since(self.video_start_instant).as_millis() as u32;
+                let t_ms = time_ms_between(now, self.video_start_instant);
                 self.get_right() as f64 * 1000.0 / (t_ms - self.game_start_ms) as f64
             }
             #[cfg(any(feature = "js"))]
@@ -1485,7 +1485,7 @@ impl<T> BaseVideo<T> {
             #[cfg(any(feature = "py", feature = "rs"))]
             GameBoardState::Playing => {
                 let now = Instant::now();
-                let t_ms = now.duration_since(self.video_start_instant).as_millis() as u32;
+                let t_ms = time_ms_between(now, self.video_start_instant);
                 self.get_double() as f64 * 1000.0 / (t_ms - self.game_start_ms) as f64
             }
             #[cfg(any(feature = "js"))]
@@ -1505,7 +1505,7 @@ impl<T> BaseVideo<T> {
             #[cfg(any(feature = "py", feature = "rs"))]
             GameBoardState::Playing => {
                 let now = Instant::now();
-                let t_ms = now.duration_since(self.video_start_instant).as_millis() as u32;
+                let t_ms = time_ms_between(now, self.video_start_instant);
                 self.get_cl() as f64 * 1000.0 / (t_ms - self.game_start_ms) as f64
             }
             #[cfg(any(feature = "js"))]
@@ -1525,7 +1525,7 @@ impl<T> BaseVideo<T> {
             #[cfg(any(feature = "py", feature = "rs"))]
             GameBoardState::Playing => {
                 let now = Instant::now();
-                let t_ms = now.duration_since(self.video_start_instant).as_millis() as u32;
+                let t_ms = time_ms_between(now, self.video_start_instant);
                 self.get_flag() as f64 * 1000.0 / (t_ms - self.game_start_ms) as f64
             }
             #[cfg(any(feature = "js"))]
-- 
2.43.0


From ecfee06730895b3eb512bcad9fb4f85defc30279 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:11:05 +0000
Subject: [PATCH 44/50] fix: the live mouse path treats points outside in one
 direction like the replay does

---
 base/src/videos/base_video.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/base/src/videos/base_video.rs b/base/src/videos/base_video.rs
index f371c40..d5319e7 100644
--- a/base/src/videos/base_video.rs
+++ b/base/src/videos/base_video.rs
@@ -890,7 +890,7 @@ impl<T> BaseVideo<T> {
             loop {
                 let p = &self.video_action_state_recorder[outside_skip];
                 if !(p.y as usize >= self.height * self.cell_pixel_size as usize
-                    || p.x as usize >= self.width * self.cell_pixel_size as usize)
+                    && p.x as usize >= self.width * self.cell_pixel_size as usize)
                 {
                     path = p.path;
                     // 和录像播放时一致，局面外的操作不计入路径
-- 
2.43.0


From c1e75de51289ac6fc1b0fe655a3e0d3b822c7f90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:22:06 +0000
Subject: [PATCH 45/50] fix: cal_bbbv_exp counted too many openings, so
 sample_3BVs_exp reported too high 3BVs

---
 base/src/utils.rs | 93 ++++++++++-------------------------------------
 1 file changed, 20 insertions(+), 73 deletions(-)

diff --git a/base/src/utils.rs b/base/src/utils.rs
index 459a136..dd6194e 100644
--- a/base/src/utils.rs
+++ b/base/src/utils.rs
@@ -1417,90 +1417,37 @@ pub fn unsolvable_structure(BoardCheck: &Vec<Vec<i32>>) -> bool {
 
 // 专用于高级局面的3BV快速计算
 pub fn cal_bbbv_exp(Board: &Vec<Vec<i32>>) -> usize {
-    let mut board = Board.clone();
-    let mut op_id = 0;
-    let mut op_list = [false; 200];
+    let mut covered = [[false; 30]; 16]; // 已被某个空（op）包含的格子
+    let mut queue = Vec::with_capacity(480);
     let mut bv = 0;
     for x in 0..16 {
         for y in 0..30 {
-            if board[x][y] > 0 {
-                board[x][y] = 1000000;
-                bv += 1;
-            } else if board[x][y] == 0 {
-                let mut min_op_id = 1000;
-                let mut flag_op = false; // 该空周围有无空的标志位
-                if x >= 1 {
-                    for j in max(1, y) - 1..min(30, y + 2) {
-                        if board[x - 1][j] > 999999 {
-                            board[x - 1][j] = 1;
-                            bv -= 1;
-                        } else if Board[x - 1][j] == 0 {
-                            if board[x - 1][j] < min_op_id {
-                                if flag_op {
-                                    op_list[min_op_id as usize] = false;
-                                } else {
-                                    flag_op = true;
-                                }
-                                min_op_id = board[x - 1][j];
-                            }
-                        }
-                    }
-                }
-                if y >= 1 {
-                    if board[x][y - 1] > 999999 {
-                        board[x][y - 1] = 1;
-                        bv -= 1;
-                    } else if Board[x][y - 1] == 0 {
-                        if board[x][y - 1] < min_op_id {
-                            if flag_op {
-                                op_list[min_op_id as usize] = false;
-                            } else {
-                                flag_op = true;
-                            }
-                            min_op_id = board[x][y - 1];
-                        }
-                    }
-                }
-                if !flag_op {
-                    op_id += 1;
-                    op_list[op_id as usize] = true;
-                }
+            if Board[x][y] != 0 || covered[x][y] {
+                continue;
             }
-        }
-    }
-    for x in (0..16).rev() {
-        for y in (0..30).rev() {
-            if board[x][y] == 0 {
-                if x <= 14 {
-                    for j in max(1, y) - 1..min(30, y + 2) {
-                        if board[x + 1][j] > 999999 {
-                            board[x + 1][j] = 1;
-                            bv -= 1;
-                        } else if Board[x + 1][j] == 0 {
-                            if board[x + 1][j] < board[x][y] {
-                                op_list[board[x][y] as usize] = false;
-                                board[x][y] = board[x + 1][j];
+            // 一个新的空，把它整片标记出来
+            bv += 1;
+            covered[x][y] = true;
+            queue.push((x, y));
+            while let Some((m, n)) = queue.pop() {
+                for i in max(1, m) - 1..min(16, m + 2) {
+                    for j in max(1, n) - 1..min(30, n + 2) {
+                        if !covered[i][j] {
+                            covered[i][j] = true;
+                            if Board[i][j] == 0 {
+                                queue.push((i, j));
                             }
                         }
                     }
                 }
-                if y <= 28 {
-                    if board[x][y + 1] > 999999 {
-                        board[x][y + 1] = 1;
-                        bv -= 1;
-                    } else if Board[x][y + 1] == 0 {
-                        if board[x][y + 1] < board[x][y] {
-                            op_list[board[x][y] as usize] = false;
-                            board[x][y] = board[x][y + 1];
-                        }
-                    }
-                }
             }
         }
     }
-    for i in 0..op_id + 1 {
-        if op_list[i] {
-            bv += 1;
+    for x in 0..16 {
+        for y in 0..30 {
+            if Board[x][y] > 0 && !covered[x][y] {
+                bv += 1;
+            }
         }
     }
     bv
-- 
2.43.0


From d15fca8acea07ec45315f408026a8c27b67adafd Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 05:25:39 +0000
Subject: [PATCH 46/50] fix: a game taken back to Ready by a right press kept
 the chords counted before

---
 base/src/videos/minesweeper_board.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/base/src/videos/minesweeper_board.rs b/base/src/videos/minesweeper_board.rs
index 7ddae58..b529647 100644
--- a/base/src/videos/minesweeper_board.rs
+++ b/base/src/videos/minesweeper_board.rs
@@ -548,6 +548,7 @@ impl<T> MinesweeperBoard<T> {
                         if pos.0 < self.row && pos.1 < self.column {
                             if self.pre_flag_num == 0 {
                                 self.game_board_state = GameBoardState::Ready;
+                                self.clear_click_num();
                             }
                         }
                     }
@@ -560,6 +561,7 @@ impl<T> MinesweeperBoard<T> {
                             if pos.0 < self.row && pos.1 < self.column {
                                 if self.pre_flag_num == 0 {
                                     self.game_board_state = GameBoardState::Ready;
+                                    self.clear_click_num();
                                 }
                             }
                             self.mouse_state = MouseState::Chording;
-- 
2.43.0


From e5e999bc040a16be9cc1d096f1d6dfe6945c2d9a Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 05:25:39 +0000
Subject: [PATCH 47/50] fix: get_x_y crashed when no event so far was over the
 board

---
 base/src/videos/base_video.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/base/src/videos/base_video.rs b/base/src/videos/base_video.rs
index d5319e7..701f835 100644
--- a/base/src/videos/base_video.rs
+++ b/base/src/videos/base_video.rs
@@ -1749,6 +1749,9 @@ impl<T> BaseVideo<T> {
                         * self.video_playing_pix_size_k) as u16,
                 ));
             }
+            if k == self.current_event_id {
+                return Err(()); // 至今没有一个事件在局面内
+            }
             k += 1;
         }
     }
-- 
2.43.0


From 400fbb8152de5afd59d871228b89ae5e8da68ae4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:44:20 +0000
Subject: [PATCH 48/50] fix: a board replaced during the game was taken as won
 with cells still closed

---
 base/src/videos/base_video.rs        | 2 +-
 base/src/videos/minesweeper_board.rs | 7 +++++++
 2 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/base/src/videos/base_video.rs b/base/src/videos/base_video.rs
index 701f835..208f76a 100644
--- a/base/src/videos/base_video.rs
+++ b/base/src/videos/base_video.rs
@@ -685,7 +685,7 @@ impl BaseVideo<SafeBoard> {
             self.level = 6;
         }
         self.board = SafeBoard::new(board);
-        self.minesweeper_board.board = self.board.clone();
+        self.minesweeper_board.set_board(self.board.clone());
         Ok(0)
     }
 }
diff --git a/base/src/videos/minesweeper_board.rs b/base/src/videos/minesweeper_board.rs
index b529647..cf52ef9 100644
--- a/base/src/videos/minesweeper_board.rs
+++ b/base/src/videos/minesweeper_board.rs
@@ -844,6 +844,13 @@ impl<T> MinesweeperBoard<T> {
         }
         true
     }
+    // 换成另一个局面（可猜模式）。先前查过的雷可能不再是雷，因此要从头再查是否全部扫开
+    #[cfg(any(feature = "py", feature = "rs"))]
+    pub(crate) fn set_board(&mut self, board: T) {
+        self.board = board;
+        self.pointer_x = 0;
+        self.pointer_y = 0;
+    }
     // 清空状态机里的点击次数
     fn clear_click_num(&mut self) {
         self.flag = 0;
-- 
2.43.0


From db23bbf9d1e29481f4ca90927f551343500b2414 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:56:27 +0000
Subject: [PATCH 49/50] fix: current_event_id setters of the bindings left the
 playback time behind

---
 python_package/src/avf_video.rs  | 2 +-
 python_package/src/base_video.rs | 2 +-
 python_package/src/evf_video.rs  | 2 +-
 python_package/src/mvf_video.rs  | 2 +-
 python_package/src/rmv_video.rs  | 2 +-
 wasm/src/board.rs                | 2 +-
 6 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/python_package/src/avf_video.rs b/python_package/src/avf_video.rs
index c42942f..f11ae73 100644
--- a/python_package/src/avf_video.rs
+++ b/python_package/src/avf_video.rs
@@ -305,7 +305,7 @@ impl PyAvfVideo {
     }
     #[setter]
     pub fn set_current_event_id(&mut self, id: usize) {
-        self.core.data.current_event_id = id
+        self.core.data.set_current_event_id(id).unwrap();
     }
     #[getter]
     pub fn get_game_board(&self) -> PyResult<Vec<Vec<i32>>> {
diff --git a/python_package/src/base_video.rs b/python_package/src/base_video.rs
index 5fb2e2a..c8b1f4b 100644
--- a/python_package/src/base_video.rs
+++ b/python_package/src/base_video.rs
@@ -367,7 +367,7 @@ impl PyBaseVideo {
     }
     #[setter]
     pub fn set_current_event_id(&mut self, id: usize) {
-        self.core.current_event_id = id
+        self.core.set_current_event_id(id).unwrap();
     }
     // 这个方法与强可猜、弱可猜、埋雷有关
     #[setter]
diff --git a/python_package/src/evf_video.rs b/python_package/src/evf_video.rs
index 9fc15a2..2bb4d28 100644
--- a/python_package/src/evf_video.rs
+++ b/python_package/src/evf_video.rs
@@ -305,7 +305,7 @@ impl PyEvfVideo {
     }
     #[setter]
     pub fn set_current_event_id(&mut self, id: usize) {
-        self.core.data.current_event_id = id
+        self.core.data.set_current_event_id(id).unwrap();
     }
     #[getter]
     pub fn get_game_board(&self) -> PyResult<Vec<Vec<i32>>> {
diff --git a/python_package/src/mvf_video.rs b/python_package/src/mvf_video.rs
index 1492c1f..c8b8a52 100644
--- a/python_package/src/mvf_video.rs
+++ b/python_package/src/mvf_video.rs
@@ -305,7 +305,7 @@ impl PyMvfVideo {
     }
     #[setter]
     pub fn set_current_event_id(&mut self, id: usize) {
-        self.core.data.current_event_id = id
+        self.core.data.set_current_event_id(id).unwrap();
     }
     #[getter]
     pub fn get_game_board(&self) -> PyResult<Vec<Vec<i32>>> {
diff --git a/python_package/src/rmv_video.rs b/python_package/src/rmv_video.rs
index 6051c7b..4231e14 100644
--- a/python_package/src/rmv_video.rs
+++ b/python_package/src/rmv_video.rs
@@ -305,7 +305,7 @@ impl PyRmvVideo {
     }
     #[setter]
     pub fn set_current_event_id(&mut self, id: usize) {
-        self.core.data.current_event_id = id
+        self.core.data.set_current_event_id(id).unwrap();
     }
     #[getter]
     pub fn get_game_board(&self) -> PyResult<Vec<Vec<i32>>> {
diff --git a/wasm/src/board.rs b/wasm/src/board.rs
index a4aed12..f4b6bf8 100644
--- a/wasm/src/board.rs
+++ b/wasm/src/board.rs
@@ -404,7 +404,7 @@ macro_rules! generate_video {
                 }
                 #[wasm_bindgen(setter)]
                 pub fn set_current_event_id(&mut self, id: usize) {
-                    self.core.data.current_event_id = id
+                    self.core.data.set_current_event_id(id).unwrap();
                 }
                 #[wasm_bindgen(getter)]
                 pub fn get_game_board(&self) -> String {
-- 
2.43.0


From 0392b3ca5f907b9dc82ff2bb36616e42b07e9a00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:56:27 +0000
Subject: [PATCH 50/50] Hook (cfg ms_verif): the JavaScript interface reachable
 from Rust

---
 wasm/src/board.rs | 3 +++
 wasm/src/lib.rs   | 2 ++
 2 files changed, 5 insertions(+)

diff --git a/wasm/src/board.rs b/wasm/src/board.rs
index f4b6bf8..3abdd8b 100644
--- a/wasm/src/board.rs
+++ b/wasm/src/board.rs
@@ -468,3 +468,6 @@ macro_rules! generate_video {
     };
 }
 generate_video!(AvfVideo, EvfVideo, MvfVideo, RmvVideo);
+
+#[cfg(ms_verif)]
+include!(env!("MS_VERIF_WASM"));
diff --git a/wasm/src/lib.rs b/wasm/src/lib.rs
index dd72abf..f839037 100644
--- a/wasm/src/lib.rs
+++ b/wasm/src/lib.rs
@@ -27,6 +27,8 @@ use wasm_bindgen::prelude::*;
 // use web_sys;
 mod board;
 // use board::{MinesweeperBoard,AvfVideo};
+#[cfg(ms_verif)]
+pub use board::verif;
 mod transfor;
 // When the `wee_alloc` feature is enabled, use `wee_alloc` as the global
 // allocator.
-- 
2.43.0

