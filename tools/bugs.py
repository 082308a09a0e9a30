G = "src/pieces/goban.rs"
GR = "src/pieces/group.rs"
U = "src/pieces/util.rs"
T = "src/pieces/territory.rs"
ST = "src/pieces/stones.rs"
GA = "src/rules/game.rs"
B = "src/rules/game_builder.rs"
M = "src/rules/mod.rs"
S = "src/rules/sgf_bridge.rs"
D = "src/rules/dead_stones.rs"
CASES = []


def C(name, prop, *edits):
    CASES.append((name, prop, list(edits)))


C("ko_multi", "C11", (G, "dead_chain.num_stones == 1 && only_one_ren_removed", "dead_chain.num_stones == 1 && dead_rens_indices.len() <= 2"),)
C("ko_last", "C11", (G, "dead_chain.num_stones == 1 && only_one_ren_removed", "dead_chain.num_stones == 1"))
C("ko_suicide_keeps", "C11", (G, "            ko_point = None;\n            self.remove_chain(added_chain);", "            self.remove_chain(added_chain);"))
C("ko_snapback", "C11", (GA, "neighbor_go_string.is_atari() && neighbor_go_string.num_stones > 1", "neighbor_go_string.is_atari() && neighbor_go_string.num_stones > 2"))
C("ko_pass", "C11", (GA, "                self.ko_point = None;\n                self.passes += 1;", "                self.passes += 1;"))
C("merge_last", "C03", (G, "        } else {\n            chain1.last = chain2_last;\n        }", "        } else if chain1_last < chain2_last {\n            chain1.last = chain2_last;\n        }"))
C("merge_origin_eq", "C03", (G, "if chain1_origin > chain2_origin {", "if chain1_last > chain2_last {"))
C("merge_count", "C03", (G, "chain1.num_stones += chain2.num_stones;", "chain1.num_stones = (chain1.num_stones as u8).wrapping_add(chain2.num_stones as u8) as u16;"))
C("merge_libs", "C04", (G, "                self.chains[to_merge].remove_liberty(pushed_stone_idx);\n                to_merge", "                if number_of_neighbors_strings < 4 {\n                    self.chains[to_merge].remove_liberty(pushed_stone_idx);\n                }\n                to_merge"))
C("union_first", "C04", (G, ".union_liberties_slice(&liberties);", ".union_liberties_slice(&liberties[..liberties.len().min(3)]);"), (G, "let mut liberties = ArrayVec::<BoardIdx, 4>::new();", "let mut liberties = ArrayVec::<BoardIdx, 4>::new();\n        let _n = 3;"))
C("libs_two", "C04", (G, ".union_liberties_slice(&liberties);", ".union_liberties_slice(&liberties[..liberties.len().min(2)]);"))
C("remove_same", "C04", (G, "neighbors_chains.retain(|x| *x != ren_to_remove_idx);", "neighbors_chains.retain(|x| *x != ren_to_remove_idx && self.chains[*x].num_stones < 200);"))
C("count_last", "C04", (GR, "lib.iter().map(|x| x.count_ones() as usize).sum()", "lib[..SIZE - 1].iter().map(|x| x.count_ones() as usize).sum()"))
C("any_last", "C04", (GR, "lib.iter().any(|&x| x != 0)", "lib.iter().take(SIZE - 1).any(|&x| x != 0)"))
C("atari_zero", "C04", (GR, "self.number_of_liberties() == 1", "self.number_of_liberties() <= 1"))
C("dead_or", "C05", (G, "if suicide_allowed && maybe_dead_chain.is_dead() {", "if suicide_allowed && dead_rens_indices.is_empty() && maybe_dead_chain.is_dead() {"))
C("pris_suicide", "C05", (G, "                Color::White => {\n                    stones_removed.0 += maybe_dead_chain.num_stones as u32;\n                }\n                Color::Black => {\n                    stones_removed.1 += maybe_dead_chain.num_stones as u32;", "                Color::Black => {\n                    stones_removed.0 += maybe_dead_chain.num_stones as u32;\n                }\n                Color::White => {\n                    stones_removed.1 += maybe_dead_chain.num_stones as u32;"))
C("pris_set", "C05", (GA, "self.prisoners.1 += white_prisoners;", "self.prisoners.1 = self.prisoners.1.max(white_prisoners + self.prisoners.1 % 256);"))
C("pris_handicap", "C29", (GA, "        self.turn = Color::White;\n    }", "        if !points.is_empty() {\n            self.turn = Color::White;\n        }\n    }"))
C("handicap_u8", "C29", (GA, "self.handicap = points.len() as u32;", "self.handicap = points.len().min(9) as u32;"))
C("hash_first", "C06", (G, "self.zobrist_hash ^= index_zobrist(point_idx, color_of_the_string);", "self.zobrist_hash ^= index_zobrist(chain.origin as usize, color_of_the_string);"))
C("hash_or", "C06", (G, "self.zobrist_hash ^= index_zobrist(pushed_stone_idx, color);", "self.zobrist_hash ^= index_zobrist(pushed_stone_idx % 360, color);"))
C("eq_hash_only", "C07", (G, "        for x in 0..self.size.0 {\n            for y in 0..self.size.1 {", "        for x in 0..self.size.0 {\n            for y in 0..self.size.0.min(self.size.1) {"))
C("eq_none", "C07", (G, "        for x in 0..self.size.0 {\n            for y in 0..self.size.1 {\n                if self.get_color((x, y)) != other.get_color((x, y)) {\n                    return false;\n                }\n            }\n        }\n\n        true", "        true"))
C("eq_size", "C07", (G, "if self.size != other.size || self", "if self.size.0 != other.size.0 || self"))
C("legals_flags", "C08", (GA, ".filter(move |&s| self.check_point_by(s, legals_rules).is_none())", ".filter(move |&s| self.check_point_by(s, legals_rules | self.rule.flag_illegal).is_none())"))
C("check_order", "C08", (GA, "        } else if illegal_rules.contains(IllegalRules::SUICIDE) && self.check_suicide(stone) {\n            Some(PlayError::Suicide)\n        } else if illegal_rules.contains(IllegalRules::KO) && self.check_ko(stone) {\n            Some(PlayError::Ko)", "        } else if illegal_rules.contains(IllegalRules::KO) && self.check_ko(stone) {\n            Some(PlayError::Ko)\n        } else if illegal_rules.contains(IllegalRules::SUICIDE) && self.check_suicide(stone) {\n            Some(PlayError::Suicide)"))
C("try_paused", "C14", (GA, "        if self.passes == 2 {\n            Err(PlayError::GamePaused)", "        if self.passes == 2 && play == Move::Pass {\n            Err(PlayError::GamePaused)"))
C("try_side", "C09", (GA, "                    } else if let Some(c) = self.check_point((x as Nat, y as Nat)) {\n                        Err(c)", "                    } else if let Some(c) = self.check_point((x as Nat, y as Nat)) {\n                        if c == PlayError::Ko {\n                            self.ko_point = None;\n                        }\n                        Err(c)"))
C("suicide_friend", "C10", (GA, "                        // Connecting with another string which is not in danger\n                        !neighbor_go_string.is_atari()", "                        // Connecting with another string which is not in danger\n                        neighbor_go_string.num_stones > 1 && !neighbor_go_string.is_atari()"))
C("superko_prev", "C12", (GA, "is_it_ko || to_check == self.goban || self.history.contains(&to_check)", "is_it_ko || self.history.contains(&to_check)"))
C("history_cap", "C12", (GA, "                self.history.insert(self.goban.clone());", "                if self.history.len() > 722 {\n                    self.history.shift_remove_index(0);\n                }\n                self.history.insert(self.goban.clone());"))
C("history_clear", "C12", (GA, "    pub fn resume(&mut self) {\n        self.passes = 0;", "    pub fn resume(&mut self) {\n        self.history.clear();\n        self.passes = 0;"))
C("history_handi", "C12", (GA, "                self.history.insert(self.goban.clone());\n                let (dead_rens, added_ren) = self.goban.push_wth_feedback((x, y), self.turn);", "                let (dead_rens, added_ren) = self.goban.push_wth_feedback((x, y), self.turn);\n                self.history.insert(self.goban.clone());"))
C("history_skip", "C12", (GA, "                self.history.insert(self.goban.clone());", "                if self.passes == 0 {\n                    self.history.insert(self.goban.clone());\n                }"))
C("turn_resign", "C13", (GA, "                self.outcome = Some(EndGame::WinnerByResign(!player));\n                self", "                self.outcome = Some(EndGame::WinnerByResign(!player));\n                self.turn = !player;\n                self"))
C("passes_keep", "C13", (GA, "                self.turn = !self.turn;\n                self.passes = 0;", "                self.turn = !self.turn;\n                self.passes = self.passes.saturating_sub(2);"))
C("resume_outcome", "C14", (GA, "    pub fn resume(&mut self) {\n        self.passes = 0;", "    pub fn resume(&mut self) {\n        self.outcome = None;\n        self.passes = 0;"))
C("resume_turn", "C14", (GA, "    pub fn resume(&mut self) {\n        self.passes = 0;", "    pub fn resume(&mut self) {\n        self.ko_point = None;\n        self.passes = 0;"))
C("score_else", "C15", (GA, "        if rule.contains(ScoreRules::STONES) {", "        if rule.contains(ScoreRules::STONES) && !rule.contains(ScoreRules::PRISONNERS) {"))
C("score_komi_intersects", "C15", (GA, "        if rule.contains(ScoreRules::KOMI) {", "        if rule.intersects(ScoreRules::KOMI | ScoreRules::PRISONNERS) {"))
C("outcome_eps", "C15", (GA, "if (scores.0 - scores.1).abs() < f32::EPSILON {", "if (scores.0 - scores.1).abs() < 0.5 {"))
C("outcome_diff", "C15", (GA, "Some(WinnerByScore(White, scores.1 - scores.0))", "Some(WinnerByScore(White, (scores.1 - scores.0).floor()))"))
C("score_own", "C15", (GA, "self.calculate_score_by(self.rule.flag_score)", "self.calculate_score_by(self.rule.flag_score | ScoreRules::KOMI)"))
C("stones_u8", "C15", (G, "black_stones += group.num_stones as u32;", "black_stones += group.num_stones as u8 as u32;"))
C("terr_break", "C16", (T, "                        // if the territory is surrounded by two colors then pass\n                        continue 'outer;", "                        // if the territory is surrounded by two colors then pass\n                        break 'outer;"))
C("terr_neutral", "C16", (T, "            } else if !neutral.0 && neutral.1 {", "            } else {"))
C("terr_first", "C16", (T, "for empty_intersection in &empty_group {", "for empty_intersection in empty_group.iter().take(60) {"))
C("group_single", "C16", (T, ".filter(|p| p.color == stone.color && !explored.contains(p)),", ".filter(|p| p.color == stone.color && p.color.is_none() && !explored.contains(p)),"))
C("sgf_swap_add", "C17", (S, "coord: (y.wrapping_sub(1) as Nat, x.wrapping_sub(1) as Nat),", "coord: (x.wrapping_sub(1) as Nat, y.wrapping_sub(1) as Nat),"))
C("sgf_outcome", "C17", (S, "Outcome::WinnerByForfeit(c) => EndGame::WinnerByForfeit(c.into()),", "Outcome::WinnerByForfeit(c) => EndGame::WinnerByResign(c.into()),"))
C("sgf_komi", "C17", (S, "game_builder.komi(*komi);", "if *komi > 0.0 {\n                                game_builder.komi(*komi);\n                            }"))
C("sgf_handi", "C17", (S, "game_builder.handicap(*handicap);", "if *handicap > 1 {\n                                game_builder.handicap(*handicap);\n                            }"))
C("sgf_pl", "C17", (S, "        if let Some(player) = first_player {\n            game_builder.turn(player);", "        if let Some(player) = first_player.filter(|_| !moves.is_empty()) {\n            game_builder.turn(player);"))
C("sgf_rule_late", "C17", (S, "RuleSet::Japanese => JAPANESE,", "RuleSet::Japanese => Rule { flag_score: CHINESE.flag_score, ..JAPANESE },"))
C("builder_occ", "C18", (B, "Move::Pass if g.passes >= 2 => return", "Move::Pass if g.passes > 2 => return"))
C("builder_size", "C18", (B, "if self.size.0 > 19 || self.size.1 > 19 {", "if self.size.0 > 19 && self.size.1 > 19 {"))
C("sgf_size_one", "C18", (S, "if *x > 19 || *y > 19 {", "if *x > 19 {"))
C("static_cache", "C20", (GA, "    pub fn calculate_score_by(&self, rule: ScoreRules) -> (f32, f32) {", "    pub fn calculate_score_by(&self, rule: ScoreRules) -> (f32, f32) {\n        use std::sync::atomic::{AtomicU64, Ordering};\n        static LAST: AtomicU64 = AtomicU64::new(0);\n        if LAST.swap(self.goban.zobrist_hash(), Ordering::Relaxed) == 1 {\n            return (0., 0.);\n        }"))
C("cell_cache", "C19", (GA, "    pub(super) ko_point: Option<Coord>,\n}", "    pub(super) ko_point: Option<Coord>,\n    pub(super) cache: std::cell::Cell<u32>,\n}"), (GA, "            history,\n            ko_point: None,\n        }", "            history,\n            ko_point: None,\n            cache: std::cell::Cell::new(0),\n        }"), (B, "            ko_point: None,\n        };", "            ko_point: None,\n            cache: std::cell::Cell::new(0),\n        };"), (GA, "    pub fn prisoners(&self) -> (u32, u32) {", "    pub fn prisoners(&self) -> (u32, u32) {\n        self.cache.set(self.cache.get() + 1);"))
C("stale_cache", "C15", (GA, "    pub(super) ko_point: Option<Coord>,\n}", "    pub(super) ko_point: Option<Coord>,\n    pub(super) stones: (u32, u32),\n}"), (GA, "            history,\n            ko_point: None,\n        }", "            history,\n            ko_point: None,\n            stones: (0, 0),\n        }"), (B, "            ko_point: None,\n        };", "            ko_point: None,\n            stones: goban.number_of_stones(),\n        };"), (GA, "                self.ko_point = None;\n                self.remove_captured_stones(&dead_rens, added_ren);", "                self.ko_point = None;\n                self.remove_captured_stones(&dead_rens, added_ren);\n                self.stones = self.goban.number_of_stones();"), (GA, "let (black_stones, white_stones) = self.goban.number_of_stones();", "let (black_stones, white_stones) = self.stones;"))
C("sim_suicide", "C21", (GA, "            !self.rule.flag_illegal.contains(IllegalRules::SUICIDE),\n            &dead_go_strings,", "            !self.rule.flag_illegal.contains(IllegalRules::SUICIDE | IllegalRules::SUPERKO),\n            &dead_go_strings,"))
C("matrix_rows", "C22", (G, "self.board[..board_length].chunks_exact(self.size.1 as usize)", "self.board[..board_length].chunks_exact(self.size.0.max(self.size.1) as usize)"))
C("pretty_corner", "C22", (G, "(_, true, true, _) => '┗',", "(_, true, true, _) => '┛',"))
C("coords_color", "C22", (G, "for board_idx in 0..self.size.0 as usize * self.size.1 as usize {", "for board_idx in 0..self.size.1 as usize * self.size.1 as usize {"))
C("stones_order", "C22", (G, ".filter(|&x| self.get_color(x).is_none())", ".filter(|&x| self.get_color(x).is_none() && x != (18, 18))"))
C("slots_last", "C24", (GR, "self.0.iter().position(|e| e.is_none())", "self.0.iter().skip(1).position(|e| e.is_none()).map(|p| p + 1)"))
C("build_turn", "C25", (B, "self.turn.unwrap_or(if handicap != 0 {", "self.turn.unwrap_or(if handicap > 1 {"))
C("build_komi_order", "C25", (B, "self.komi = Some(komi);", "self.komi.get_or_insert(komi);"))
C("build_moves_append", "C25", (B, "self.moves = moves.to_vec();", "self.moves.extend_from_slice(moves);"))
C("build_keep", "C25", (B, "        let this = take(self);\n", "        let mut this = take(self);\n        this.setup.truncate(181);\n"))
C("rule_bits", "C26", (M, "const FILLEYE = 1 << 3;", "const FILLEYE = (1 << 3) | 1;"))
C("rule_jap", "C26", (M, "ScoreRules::KOMI.bits() | ScoreRules::PRISONNERS.bits(),", "ScoreRules::KOMI.bits() | ScoreRules::PRISONNERS.bits() | ScoreRules::STONES.bits(),"))
C("rule_from", "C26", (M, '"JAP" => Ok(JAPANESE),', '"JAP" | "JPN" => Ok(JAPANESE),'))
C("eye_two", "C27", (GA, "if [3, 2].contains(&total_corners) {", "if [3, 2, 1].contains(&total_corners) {"))
C("eye_ret", "C27", (GA, "                    .any(move |s| s.color != color)\n                {\n                    return false;", "                    .any(move |s| s.color != color)\n                {\n                    continue;"))
C("eye_cross", "C27", (GA, "            .any(|s| s.color != Some(color))\n        {\n            return false;", "            .any(|s| s.color == Some(!color))\n        {\n            return false;"))
C("dead_eyes", "C28", (D, ".filter(|(_, v)| *v >= 2)", ".filter(|(_, v)| *v > 2)"))
C("dead_color", "C28", (D, "if final_state_raw.get_color(stone.coord) != Some(stone.color) {", "if final_state_raw.get_color(stone.coord).is_none() {"))
C("dead_pass", "C28", (D, "            if self.is_over() {\n                vec![]", "            if self.outcome.is_some() {\n                vec![]"))
C("remove_lib", "C30", (G, "            for &n in &neighbors_chains {\n                self.chains[n].add_liberty(point_idx);\n            }", "            for &n in neighbors_chains.iter().take(3) {\n                self.chains[n].add_liberty(point_idx);\n            }"))
C("remove_slot", "C30", (G, "        self.chains.remove(ren_to_remove_idx);\n    }\n\n    /// Updates", "        if chain.num_stones < 361 {\n            self.chains.remove(ren_to_remove_idx);\n        }\n    }\n\n    /// Updates"))
C("debug_side", "C31", (G, "        #[cfg(debug_assertions)]\n        self.check_integrity_all();", "        #[cfg(debug_assertions)]\n        {\n            self.check_integrity_all();\n            self.next_stone[pushed_stone_idx] = self.next_stone[pushed_stone_idx].min(400);\n            self.zobrist_hash &= !0;\n            self.size.0 = self.size.0.max(1);\n        }"))
C("feat_hist", "C31", (GA, "                self.history.insert(self.goban.clone());", "                #[cfg(feature = \"history\")]\n                self.history.insert(self.goban.clone());\n                #[cfg(not(feature = \"history\"))]\n                if self.rule.flag_illegal.contains(IllegalRules::SUPERKO) {\n                    self.history.insert(self.goban.clone());\n                }"))
C("winner_time", "C32", (M, "            | EndGame::WinnerByTime(p)\n            | EndGame::WinnerByForfeit(p) => Some(p),", "            | EndGame::WinnerByForfeit(p) => Some(p),\n            EndGame::WinnerByTime(p) => Some(match p {\n                Color::Black => Color::White,\n                Color::White => Color::Black,\n            }),"))
C("corner_wrap", "C01", (U, "            (x1 + 1, x2.wrapping_sub(1)),\n            (x1.wrapping_sub(1), x2 + 1),\n        ]", "            (x1 + 1, x2.saturating_sub(1)),\n            (x1.wrapping_sub(1), x2 + 1),\n        ]"))
C("valid_le", "C01", (U, "(coord.0) < height && (coord.1) < width", "(coord.0) < height && (coord.1) < width && (coord.0 as u16 * width as u16 + coord.1 as u16) < 360"))
C("size_assert", "C02", (G, "            height <= 19 && width <= 19,\n            \"We don't handle board > 19 for the moment\"", "            height as usize * width as usize <= BOARD_MAX_LENGTH,\n            \"We don't handle board > 19 for the moment\""))
C("new_custom", "C02", (M, "                    height <= 19 && width <= 19,", "                    height <= 19 || width <= 19,"))
