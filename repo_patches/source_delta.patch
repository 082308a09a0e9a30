From 1b3da604f70c0e5c611de8bb7b656e1c12fc74fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:08 +0000
Subject: [PATCH 01/21] fix: use the board width as the row stride so
 rectangular boards do not alias points

---
 src/pieces/util.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/pieces/util.rs b/src/pieces/util.rs
index c681d4b..8b9083a 100644
--- a/src/pieces/util.rs
+++ b/src/pieces/util.rs
@@ -15,13 +15,13 @@ pub mod coord {
 
     #[inline(always)]
     pub const fn two_to_1dim(size: Size, point: Coord) -> usize {
-        (point.0 as u32 * size.0 as u32 + point.1 as u32) as usize
+        (point.0 as u32 * size.1 as u32 + point.1 as u32) as usize
     }
 
     #[inline(always)]
     pub const fn one_to_2dim(size: Size, index: usize) -> Coord {
         (
-            (index / size.0 as usize) as u8,
+            (index / size.1 as usize) as u8,
             (index % size.1 as usize) as u8,
         )
     }
@@ -30,7 +30,7 @@ pub mod coord {
     macro_rules! one2dim {
         ($size: expr, $index: expr) => {
             (
-                ($index / $size.0 as usize) as u8,
+                ($index / $size.1 as usize) as u8,
                 ($index % $size.1 as usize) as u8,
             )
         };
-- 
2.43.0


From 306a158ebf76703ed0008ebc1ce312c2e211f327 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:08 +0000
Subject: [PATCH 02/21] fix: to_vec and matrix only cover the points of the
 board

---
 src/pieces/goban.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/pieces/goban.rs b/src/pieces/goban.rs
index 0470670..d0e7e64 100644
--- a/src/pieces/goban.rs
+++ b/src/pieces/goban.rs
@@ -95,7 +95,8 @@ impl Goban {
 
     /// Returns the underlying goban in a vector with a RowMajor Policy, calculated on the fly.
     pub fn to_vec(&self) -> Vec<MaybeColor> {
-        self.board
+        let board_length = self.size.0 as usize * self.size.1 as usize;
+        self.board[..board_length]
             .iter()
             .map(|point| {
                 point.map_or(EMPTY, |go_str_ptr| {
@@ -108,7 +109,8 @@ impl Goban {
     /// Like vec but in a matrix shape.
     pub fn matrix(&self) -> Vec<Vec<MaybeColor>> {
         let mut mat = vec![];
-        for line in self.board.chunks_exact(self.size.1 as usize) {
+        let board_length = self.size.0 as usize * self.size.1 as usize;
+        for line in self.board[..board_length].chunks_exact(self.size.1 as usize) {
             let v = line
                 .iter()
                 .map(|o| o.map_or(EMPTY, |idx| self.chains[idx].color.into()))
-- 
2.43.0


From 3f3f534442092a8b965de36f63f48020cef19278 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:08 +0000
Subject: [PATCH 03/21] fix: get_empty_idx yields the empty points of the board

---
 src/pieces/goban.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/pieces/goban.rs b/src/pieces/goban.rs
index d0e7e64..4d38993 100644
--- a/src/pieces/goban.rs
+++ b/src/pieces/goban.rs
@@ -368,10 +368,11 @@ impl Goban {
     }
 
     pub fn get_empty_idx(&self) -> impl Iterator<Item = BoardIdx> + '_ {
-        self.board
+        let board_length = self.size.0 as usize * self.size.1 as usize;
+        self.board[..board_length]
             .iter()
             .enumerate()
-            .filter_map(|(idx, group)| group.map(|_| idx))
+            .filter_map(|(idx, group)| group.is_none().then_some(idx))
     }
 
     pub fn get_empty_coords(&self) -> impl Iterator<Item = Coord> + '_ {
-- 
2.43.0


From f27d012ec3a492f2f90381f22eca175f9582f276 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:08 +0000
Subject: [PATCH 04/21] fix: get_coords_by_color returns only empty points for
 EMPTY and handles 19x19 boards

---
 src/pieces/goban.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/pieces/goban.rs b/src/pieces/goban.rs
index 4d38993..8d6bfa2 100644
--- a/src/pieces/goban.rs
+++ b/src/pieces/goban.rs
@@ -393,8 +393,9 @@ impl Goban {
     #[inline]
     pub fn get_coords_by_color(&self, color: MaybeColor) -> impl Iterator<Item = Coord> + '_ {
         let mut res = ArrayVec::<Coord, BOARD_MAX_LENGTH>::new();
-        for board_idx in 0..(self.size.0 * self.size.1) as usize {
+        for board_idx in 0..self.size.0 as usize * self.size.1 as usize {
             match color {
+                EMPTY if self.board[board_idx].is_some() => {}
                 EMPTY => res.push(one_to_2dim(self.size, board_idx)),
                 Some(c) => self.board[board_idx]
                     .filter(|&chain_idx| self.chains[chain_idx.get() as usize].color == c)
-- 
2.43.0


From 8138b24113c864c3d55656c6864bb797c1bc1ffb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:08 +0000
Subject: [PATCH 05/21] fix: pseudo_legals_vec does not overflow u8 on boards
 over 15x15

---
 src/rules/game.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rules/game.rs b/src/rules/game.rs
index 56aea5c..bbc3ee3 100644
--- a/src/rules/game.rs
+++ b/src/rules/game.rs
@@ -138,7 +138,7 @@ impl Game {
     /// Get all moves on all empty intersections.
     pub fn pseudo_legals_vec(&self) -> Vec<Coord> {
         let size = self.size();
-        let mut vec = Vec::with_capacity((size.0 * size.1) as usize);
+        let mut vec = Vec::with_capacity(size.0 as usize * size.1 as usize);
         let board = self.goban.board();
         for i in 0..size.0 as Nat {
             for j in 0..size.1 as Nat {
-- 
2.43.0


From 2c43e07dd1b5494df98e68b44267984aacf851ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:08 +0000
Subject: [PATCH 06/21] fix: play_for_verification handles suicides the way
 play does

---
 src/rules/game.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rules/game.rs b/src/rules/game.rs
index bbc3ee3..c257211 100644
--- a/src/rules/game.rs
+++ b/src/rules/game.rs
@@ -203,7 +203,7 @@ impl Game {
         let mut test_goban = self.goban.clone();
         let (dead_go_strings, added_ren) = test_goban.push_wth_feedback((x, y), self.turn);
         test_goban.remove_captured_stones_aux(
-            self.rule.flag_illegal.contains(IllegalRules::SUICIDE),
+            !self.rule.flag_illegal.contains(IllegalRules::SUICIDE),
             &dead_go_strings,
             added_ren,
         );
-- 
2.43.0


From 72eda3f51f357ff9250a10aee661128fb6b41701 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:08 +0000
Subject: [PATCH 07/21] fix: pushing a stone outside the board panics as
 documented

---
 src/pieces/goban.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/pieces/goban.rs b/src/pieces/goban.rs
index 8d6bfa2..5b242b7 100644
--- a/src/pieces/goban.rs
+++ b/src/pieces/goban.rs
@@ -5,7 +5,7 @@ use crate::pieces::group::CircularGroupIter;
 use crate::pieces::group::{merge, set, Group, Groups, Liberties, EMPTY_LIBERTIES};
 use crate::pieces::stones::*;
 use crate::pieces::util::coord::{
-    one_to_2dim, two_to_1dim, valid_coords, Coord, IntoCoord, IntoIdx, Size,
+    is_coord_valid, one_to_2dim, two_to_1dim, valid_coords, Coord, IntoCoord, IntoIdx, Size,
 };
 use crate::pieces::zobrist::*;
 use crate::pieces::{Connections, Nat};
@@ -156,6 +156,10 @@ impl Goban {
         point: Coord,
         color: Color,
     ) -> (ArrayVec<usize, 4>, GroupIdx) {
+        assert!(
+            is_coord_valid(self.size, point),
+            "Coordinate {point:?} out of bounds"
+        );
         let pushed_stone_idx = two_to_1dim(self.size, point);
 
         let mut adjacent_same_color_str_set = ArrayVec::<BoardIdx, 4>::new();
-- 
2.43.0


From 1fc6273ea200866bc1413202c88c75e98c25b204 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:08 +0000
Subject: [PATCH 08/21] fix: the opponent of the player who resigns is the
 winner

---
 src/rules/game.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rules/game.rs b/src/rules/game.rs
index c257211..0fe75ec 100644
--- a/src/rules/game.rs
+++ b/src/rules/game.rs
@@ -191,7 +191,7 @@ impl Game {
                 self
             }
             Move::Resign(player) => {
-                self.outcome = Some(EndGame::WinnerByResign(player));
+                self.outcome = Some(EndGame::WinnerByResign(!player));
                 self
             }
         }
-- 
2.43.0


From fbb71a541d8c07f0c4a78e10346ca5728256743f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:08 +0000
Subject: [PATCH 09/21] fix: put_free_spot reuses freed chain slots so long
 games do not run out of indexes

---
 src/pieces/group.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/pieces/group.rs b/src/pieces/group.rs
index f5220bc..50552c8 100644
--- a/src/pieces/group.rs
+++ b/src/pieces/group.rs
@@ -214,6 +214,10 @@ impl Groups {
     }
 
     pub fn put_free_spot(&mut self, group: Group) -> GroupIdx {
+        if let Some(free) = self.0.iter().position(|e| e.is_none()) {
+            self.0[free] = Some(group);
+            return free;
+        }
         self.0.push(Some(group));
         self.0.len() - 1
     }
-- 
2.43.0


From d43fa48f53c18cf407712975bee478dcc6178c23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:44 +0000
Subject: [PATCH 10/21] fix: super ko looks at every earlier position, whatever
 the length of the game

---
 src/rules/game.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/rules/game.rs b/src/rules/game.rs
index 0fe75ec..14c1154 100644
--- a/src/rules/game.rs
+++ b/src/rules/game.rs
@@ -411,12 +411,13 @@ impl Game {
 
     /// Rule of the super Ko, if any before configuration was already played then return true.
     pub fn check_super_ko(&self, stone: Stone) -> bool {
-        if self.history.len() <= 2 || !self.will_capture(stone.coord) {
+        if self.goban.has_liberties(stone.coord) && !self.will_capture(stone.coord) {
+            // a stone added without removing anything is a position never seen before
             false
         } else {
             let to_check = self.play_for_verification(stone.coord);
             let is_it_ko = self.check_ko(stone);
-                is_it_ko ||  self
+                is_it_ko ||  to_check == self.goban || self
                     .history
                     .contains(&to_check)
         }
-- 
2.43.0


From 644f1fc58d3dfca066341f5247efc412d615e2d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:44 +0000
Subject: [PATCH 11/21] fix: oversized custom boards are rejected instead of
 truncated

---
 src/rules/mod.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/rules/mod.rs b/src/rules/mod.rs
index 9a0b8e1..209e9bf 100644
--- a/src/rules/mod.rs
+++ b/src/rules/mod.rs
@@ -26,7 +26,13 @@ impl From<GobanSizes> for Size {
             GobanSizes::Nine => (9, 9),
             GobanSizes::Thirteen => (13, 13),
             GobanSizes::Nineteen => (19, 19),
-            GobanSizes::Custom(height, width) => (height as u8, width as u8),
+            GobanSizes::Custom(height, width) => {
+                assert!(
+                    height <= 19 && width <= 19,
+                    "We don't handle board > 19 for the moment"
+                );
+                (height as u8, width as u8)
+            }
         }
     }
 }
-- 
2.43.0


From df1bf4cb4877e87e5b971759d7e01ed8907cfadd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:44 +0000
Subject: [PATCH 12/21] fix: get_floating_stones returns the groups without two
 eyes, by their index

---
 src/pieces/goban.rs      | 6 ++++++
 src/rules/dead_stones.rs | 6 +++---
 2 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/pieces/goban.rs b/src/pieces/goban.rs
index 5b242b7..37d36fa 100644
--- a/src/pieces/goban.rs
+++ b/src/pieces/goban.rs
@@ -83,6 +83,12 @@ impl Goban {
         self.chains.iter()
     }
 
+    /// Same as chains, with the index of each group.
+    #[cfg(feature = "deadstones")]
+    pub(crate) fn chains_with_index(&self) -> impl Iterator<Item = (GroupIdx, Group)> + '_ {
+        self.chains.iter_with_index()
+    }
+
     pub fn chain_stones(&self, idx: impl IntoIdx) -> impl Iterator<Item = Stone> + '_ {
         let idx = idx.into_idx(self.size);
         let chain = self.chains[idx];
diff --git a/src/rules/dead_stones.rs b/src/rules/dead_stones.rs
index 83e9af4..a630ba1 100644
--- a/src/rules/dead_stones.rs
+++ b/src/rules/dead_stones.rs
@@ -148,10 +148,10 @@ impl Game {
                 chains_wth_eye
                     .entry(chain_idx)
                     .and_modify(|v| *v += 1)
-                    .or_insert(0);
+                    .or_insert(1);
             }
         }
-        let all_chains = self.goban.chains().enumerate();
+        let all_chains = self.goban.chains_with_index();
         let string_with_2eyes = chains_wth_eye
             .into_iter()
             .filter(|(_, v)| *v >= 2)
@@ -159,7 +159,7 @@ impl Game {
             .collect::<HashSet<_>>();
 
         all_chains
-            .filter(|(idx, _chain)| string_with_2eyes.contains(idx))
+            .filter(|(idx, _chain)| !string_with_2eyes.contains(idx))
             .map(|(idx, _chain)| idx)
             .collect()
     }
-- 
2.43.0


From f780e735e7d216718ede83eb5e943af4e67e2a58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:44 +0000
Subject: [PATCH 13/21] fix: the dead stones simulation does not panic on a
 drawn playout

---
 src/rules/dead_stones.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/rules/dead_stones.rs b/src/rules/dead_stones.rs
index a630ba1..c7c635c 100644
--- a/src/rules/dead_stones.rs
+++ b/src/rules/dead_stones.rs
@@ -79,8 +79,8 @@ impl Evaluator<Game, Reward, ()> for Eval {
     }
 
     fn evaluate_leaf(child: Game, turn: &<Game as GameTrait>::Player) -> Self::EvalResult {
-        let winner = child.get_winner();
-        if winner == *turn {
+        let winner = child.outcome().and_then(|outcome| outcome.get_winner());
+        if winner == Some(*turn) {
             1
         } else {
             0
-- 
2.43.0


From c4c0293c16ca9474168cb45b64bfe328dcb56c37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:49 +0000
Subject: [PATCH 14/21] fix: super ko also forbids a non capturing move that
 repeats a position

---
 src/rules/game.rs | 13 +++----------
 1 file changed, 3 insertions(+), 10 deletions(-)

diff --git a/src/rules/game.rs b/src/rules/game.rs
index 14c1154..2bb085d 100644
--- a/src/rules/game.rs
+++ b/src/rules/game.rs
@@ -411,16 +411,9 @@ impl Game {
 
     /// Rule of the super Ko, if any before configuration was already played then return true.
     pub fn check_super_ko(&self, stone: Stone) -> bool {
-        if self.goban.has_liberties(stone.coord) && !self.will_capture(stone.coord) {
-            // a stone added without removing anything is a position never seen before
-            false
-        } else {
-            let to_check = self.play_for_verification(stone.coord);
-            let is_it_ko = self.check_ko(stone);
-                is_it_ko ||  to_check == self.goban || self
-                    .history
-                    .contains(&to_check)
-        }
+        let to_check = self.play_for_verification(stone.coord);
+        let is_it_ko = self.check_ko(stone);
+        is_it_ko || to_check == self.goban || self.history.contains(&to_check)
     }
 
     /// Add a stone to the board and then test if the stone or stone group is dead.
-- 
2.43.0


From 85fc42af1e8bfe4d8ccd4497ba7b3acccfedcd03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:49 +0000
Subject: [PATCH 15/21] fix: from_sgf reads the size as columns:rows and
 rejects oversized boards

---
 src/rules/sgf_bridge.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/rules/sgf_bridge.rs b/src/rules/sgf_bridge.rs
index 9acad92..0dcebbf 100644
--- a/src/rules/sgf_bridge.rs
+++ b/src/rules/sgf_bridge.rs
@@ -28,7 +28,11 @@ impl Game {
                             game_builder.komi(*komi);
                         }
                         SgfToken::Size(x, y) => {
-                            game_builder.size((*x as u8, *y as u8));
+                            if *x > 19 || *y > 19 {
+                                return Err(format!("The size {x}:{y} is not supported."));
+                            }
+                            // SGF gives the number of columns first
+                            game_builder.size((*y as u8, *x as u8));
                         }
                         SgfToken::Result(o) => {
                             game_builder.outcome((*o).into());
-- 
2.43.0


From f0675eb6193043e22845c928027b185c62604f18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:49 +0000
Subject: [PATCH 16/21] fix: from_sgf returns an error on unsupported rules,
 games and players

---
 src/rules/sgf_bridge.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/rules/sgf_bridge.rs b/src/rules/sgf_bridge.rs
index 0dcebbf..a298d06 100644
--- a/src/rules/sgf_bridge.rs
+++ b/src/rules/sgf_bridge.rs
@@ -50,13 +50,18 @@ impl Game {
                             });
                         }
                         SgfToken::Rule(rule) => {
+                            if !matches!(rule, RuleSet::Japanese | RuleSet::Chinese) {
+                                return Err(format!("The rule {} is not implemented yet.", rule.to_string()));
+                            }
                             game_builder.rule(rule.clone().into());
                         }
                         SgfToken::Handicap(handicap) => {
                             game_builder.handicap(*handicap);
                         }
                         SgfToken::Game(go) => {
-                            assert_eq!(*go, sgf_parser::Game::Go);
+                            if *go != sgf_parser::Game::Go {
+                                return Err("The record isn't a game of Go.".to_string());
+                            }
                         }
 
                         //TODO another options
@@ -72,7 +77,7 @@ impl Game {
                                     "W" => {
                                         game_builder.turn(Color::White);
                                     }
-                                    _ => unreachable!(),
+                                    _ => return Err(format!("Unknown player {value}.")),
                                 }
                             }
                         }
-- 
2.43.0


From e372e799c1fe7c91913ad9d9c084d8ec9ffac564 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:49 +0000
Subject: [PATCH 17/21] fix: build returns an error instead of panicking on
 impossible stones and moves

---
 src/rules/game_builder.rs | 22 +++++++++++++++++++++-
 1 file changed, 21 insertions(+), 1 deletion(-)

diff --git a/src/rules/game_builder.rs b/src/rules/game_builder.rs
index f8204fe..60ddd22 100644
--- a/src/rules/game_builder.rs
+++ b/src/rules/game_builder.rs
@@ -20,7 +20,7 @@
 
 use crate::pieces::goban::Goban;
 use crate::pieces::stones::{Color, Stone};
-use crate::pieces::util::coord::{Coord, Size};
+use crate::pieces::util::coord::{is_coord_valid, Coord, Size};
 use crate::rules::game::Game;
 use crate::rules::{EndGame, Move, Rule, CHINESE};
 use std::mem::take;
@@ -97,16 +97,21 @@ impl GameBuilder {
     }
 
     fn build_inner(mut self) -> Result<Game, String> {
+        if self.size.0 > 19 || self.size.1 > 19 {
+            return Err("We don't handle board > 19 for the moment".to_string());
+        }
         let mut goban: Goban = Goban::new(self.size);
 
         let handicap = self.handicap.unwrap_or(self.handicap_points.len() as u32);
 
         for point in self.handicap_points {
+            check_free_point(&goban, point)?;
             goban.push(point, Color::Black);
         }
 
         // Setup
         for s in self.setup {
+            check_free_point(&goban, s.coord)?;
             goban.push_stone(s);
         }
 
@@ -136,6 +141,11 @@ impl GameBuilder {
 
         // Moves to play
         for &m in &self.moves {
+            match m {
+                Move::Play(x, y) => check_free_point(&g.goban, (x, y))?,
+                Move::Pass if g.passes >= 2 => return Err("Pass in a paused game".to_string()),
+                _ => {}
+            }
             g.play(m);
         }
 
@@ -149,6 +159,16 @@ impl GameBuilder {
     }
 }
 
+fn check_free_point(goban: &Goban, point: Coord) -> Result<(), String> {
+    if !is_coord_valid(goban.size(), point) {
+        Err(format!("The point {point:?} is outside the board"))
+    } else if goban.get_color(point).is_some() {
+        Err(format!("The point {point:?} is not empty"))
+    } else {
+        Ok(())
+    }
+}
+
 impl Default for GameBuilder {
     fn default() -> Self {
         GameBuilder {
-- 
2.43.0


From 6474482b4e74e86bd0e817d7465e0281a19f03d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:49 +0000
Subject: [PATCH 18/21] fix: from_sgf does not overflow on coordinates before
 the first line

---
 src/rules/sgf_bridge.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/rules/sgf_bridge.rs b/src/rules/sgf_bridge.rs
index a298d06..74f7dc5 100644
--- a/src/rules/sgf_bridge.rs
+++ b/src/rules/sgf_bridge.rs
@@ -42,7 +42,7 @@ impl Game {
                             coordinate: (x, y),
                         } => {
                             game_builder.add(Stone {
-                                coord: ((*y - 1) as Nat, (*x - 1) as Nat),
+                                coord: (y.wrapping_sub(1) as Nat, x.wrapping_sub(1) as Nat),
                                 color: match color {
                                     SgfColor::Black => Color::Black,
                                     SgfColor::White => Color::White,
@@ -130,7 +130,7 @@ impl From<Outcome> for EndGame {
 impl From<Action> for Move {
     fn from(a: Action) -> Self {
         match a {
-            Action::Move(col, line) => Move::Play((line - 1) as Nat, (col - 1) as Nat),
+            Action::Move(col, line) => Move::Play(line.wrapping_sub(1) as Nat, col.wrapping_sub(1) as Nat),
             Action::Pass => Move::Pass,
         }
     }
-- 
2.43.0


From b2379e0c05eec364106997b274d43fc5445ee894 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:49 +0000
Subject: [PATCH 19/21] fix: from_sgf reads the moves wherever they are in
 their node

---
 src/rules/sgf_bridge.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/rules/sgf_bridge.rs b/src/rules/sgf_bridge.rs
index 74f7dc5..4745849 100644
--- a/src/rules/sgf_bridge.rs
+++ b/src/rules/sgf_bridge.rs
@@ -84,8 +84,8 @@ impl Game {
                     }
                 }
                 first = false;
-            } else if !node.tokens.is_empty() {
-                let token = node.tokens.first().unwrap();
+            }
+            for token in &node.tokens {
                 if let SgfToken::Move { action, .. } = token {
                     moves.push((*action).into());
                 }
-- 
2.43.0


From 632cce2fab93113498950b03b4610af4e2a0ca73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:43 +0000
Subject: [PATCH 20/21] fix: from_sgf reads tt as a pass

---
 src/rules/sgf_bridge.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/rules/sgf_bridge.rs b/src/rules/sgf_bridge.rs
index 4745849..26af9de 100644
--- a/src/rules/sgf_bridge.rs
+++ b/src/rules/sgf_bridge.rs
@@ -130,6 +130,8 @@ impl From<Outcome> for EndGame {
 impl From<Action> for Move {
     fn from(a: Action) -> Self {
         match a {
+            // "tt" is a pass on the boards up to 19x19
+            Action::Move(20, 20) => Move::Pass,
             Action::Move(col, line) => Move::Play(line.wrapping_sub(1) as Nat, col.wrapping_sub(1) as Nat),
             Action::Pass => Move::Pass,
         }
-- 
2.43.0


From a38d8815bf4fb8ce8716dda09ec776588009e213 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:43 +0000
Subject: [PATCH 21/21] fix: from_sgf lets the player of the first move begin

---
 src/rules/sgf_bridge.rs | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/rules/sgf_bridge.rs b/src/rules/sgf_bridge.rs
index 26af9de..6317e33 100644
--- a/src/rules/sgf_bridge.rs
+++ b/src/rules/sgf_bridge.rs
@@ -17,6 +17,7 @@ impl Game {
         let mut game_builder: GameBuilder = Default::default();
         let mut first = true;
         let mut moves = vec![];
+        let mut first_player = None;
 
         for node in game_tree.iter() {
             if first {
@@ -72,10 +73,10 @@ impl Game {
                             if key.as_str() == "PL" {
                                 match value.as_str() {
                                     "B" => {
-                                        game_builder.turn(Color::Black);
+                                        first_player = Some(Color::Black);
                                     }
                                     "W" => {
-                                        game_builder.turn(Color::White);
+                                        first_player = Some(Color::White);
                                     }
                                     _ => return Err(format!("Unknown player {value}.")),
                                 }
@@ -86,11 +87,15 @@ impl Game {
                 first = false;
             }
             for token in &node.tokens {
-                if let SgfToken::Move { action, .. } = token {
+                if let SgfToken::Move { action, color } = token {
+                    first_player.get_or_insert((*color).into());
                     moves.push((*action).into());
                 }
             }
         }
+        if let Some(player) = first_player {
+            game_builder.turn(player);
+        }
         game_builder.moves(&moves);
         game_builder.build()
     }
-- 
2.43.0

