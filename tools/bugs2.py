"""Development tool: second batch of planted bugs, written from the property texts alone."""
CASES = []
def C(n, p, *e):
    CASES.append((n, p, list(e)))
G = "src/pieces/goban.rs"; GR = "src/pieces/group.rs"; T = "src/pieces/territory.rs"; U = "src/pieces/util.rs"; Z = "src/pieces/zobrist.rs"
GA = "src/rules/game.rs"; B = "src/rules/game_builder.rs"; S = "src/rules/sgf_bridge.rs"; D = "src/rules/dead_stones.rs"; M = "src/rules/mod.rs"; ST = "src/pieces/stones.rs"
C("b_dup_enemy", "C04", (G, "} else if !adjacent_opposite_color_str_set.contains(&adj_ren_index) {", "} else if adjacent_opposite_color_str_set.last() != Some(&adj_ren_index) {"))
C("b_dup_same", "C03", (G, "if !adjacent_same_color_str_set.contains(&adj_ren_index) {", "if adjacent_same_color_str_set.last() != Some(&adj_ren_index) {"))
C("b_merge_less", "C04", (G, "                self.chains[to_merge].remove_liberty(pushed_stone_idx);\n                to_merge", "                if number_of_neighbors_strings < 4 {\n                    self.chains[to_merge].remove_liberty(pushed_stone_idx);\n                }\n                to_merge"))
C("b_merge_order", "C03", (G, "        if chain1_origin > chain2_origin {\n            chain1.origin = chain2_origin;\n        } else {", "        if chain1_origin > chain2_origin {\n            chain1.origin = chain2_origin;\n        } else if chain2.num_stones > 1 {"))
C("b_add_last", "C03", (G, "            self.next_stone[stone] = group.origin;\n            group.last = stone as u16;", "            self.next_stone[stone] = group.origin;\n            group.last = group.last.max(stone as u16);"))
C("b_add_origin", "C03", (G, "            self.next_stone[group.last as usize] = stone as u16;\n            group.origin = stone as u16;", "            if group.last != group.origin {\n                self.next_stone[group.last as usize] = stone as u16;\n            }\n            group.origin = stone as u16;"))
C("b_remove_dup", "C04", (G, "            neighbors_chains.retain(|x| *x != ren_to_remove_idx);", "            neighbors_chains.retain(|x| *x > ren_to_remove_idx || *x < ren_to_remove_idx);\n            neighbors_chains.truncate(3);"))
C("b_hash_white", "C06", (G, "            self.zobrist_hash ^= index_zobrist(point_idx, color_of_the_string);", "            self.zobrist_hash ^= index_zobrist(point_idx, if chain.num_stones > 16 { !color_of_the_string } else { color_of_the_string });"))
C("b_ko_origin", "C11", (G, "ko_point = Some(one_to_2dim(self.size(), dead_chain.origin as usize));", "ko_point = Some(one_to_2dim((self.size.1, self.size.0), dead_chain.origin as usize));"))
C("b_ko_own", "C11", (GA, "neighbor_go_string.is_atari() && neighbor_go_string.num_stones > 1", "neighbor_go_string.is_atari() && neighbor_go_string.num_stones > 1 && neighbor_go_string.color != stone.color"))
C("b_suicide_keepko", "C11", (G, "            ko_point = None;\n            self.remove_chain(added_chain);", "            self.remove_chain(added_chain);"))
C("b_pris_swap", "C05", (G, "                Color::White => {\n                    stones_removed.0 += maybe_dead_chain.num_stones as u32;\n                }\n                Color::Black => {\n                    stones_removed.1 += maybe_dead_chain.num_stones as u32;\n                }", "                Color::White => {\n                    stones_removed.0 += maybe_dead_chain.num_stones as u32;\n                }\n                Color::Black => {\n                    stones_removed.1 = maybe_dead_chain.num_stones as u32;\n                }"))
C("b_eq_row", "C07", (G, "        for x in 0..self.size.0 {\n            for y in 0..self.size.1 {", "        for x in 0..self.size.0 {\n            for y in 0..self.size.1.min(18) {"))
C("b_conn_groups", "C08", (G, "                if !array_vec.contains(&(idx.get() as usize)) {\n                    array_vec.push(idx.get() as usize);\n                }", "                if !array_vec.contains(&(idx.get() as usize)) && array_vec.len() < 3 {\n                    array_vec.push(idx.get() as usize);\n                }"))
C("b_suicide_any", "C10", (GA, "                    if neighbor_go_string.color == stone.color {\n                        // Connecting with another string which is not in danger\n                        !neighbor_go_string.is_atari()", "                    if neighbor_go_string.color == stone.color {\n                        // Connecting with another string which is not in danger\n                        neighbor_go_string.number_of_liberties() > 2"))
C("b_superko_self", "C12", (GA, "is_it_ko || to_check == self.goban || self.history.contains(&to_check)", "is_it_ko || self.history.contains(&to_check)"))
C("b_superko_last", "C12", (GA, "is_it_ko || to_check == self.goban || self.history.contains(&to_check)", "is_it_ko || to_check == self.goban || self.history.iter().rev().take(8).any(|g| *g == to_check)"))
C("b_hist_pass", "C12", (GA, "                self.history.insert(self.goban.clone());\n                let (dead_rens", "                if self.passes == 0 || self.history.is_empty() {\n                    self.history.insert(self.goban.clone());\n                }\n                let (dead_rens"))
C("b_pass_ko", "C11", (GA, "                self.ko_point = None;\n                self.passes += 1;", "                if self.passes > 0 {\n                    self.ko_point = None;\n                }\n                self.passes += 1;"))
C("b_resign_passes", "C14", (GA, "                self.outcome = Some(EndGame::WinnerByResign(!player));\n                self", "                if self.outcome.is_none() {\n                    self.outcome = Some(EndGame::WinnerByResign(!player));\n                }\n                self"))
C("b_over_one", "C14", (GA, "            self.passes >= 2\n", "            self.passes >= 2 || self.goban.get_empty_idx().next().is_none()\n"))
C("b_try_resign", "C14", (GA, "        if self.passes == 2 {\n            Err(PlayError::GamePaused)", "        if self.is_over() {\n            Err(PlayError::GamePaused)"))
C("b_score_terr", "C15", (GA, "        let mut white_score = white_score as f32;", "        let mut white_score = (white_score as u8) as f32;"))
C("b_komi_zero", "C15", (GA, "            white_score += self.komi();", "            white_score += self.komi().max(0.0);"))
C("b_outcome_neg", "C15", (GA, "Some(WinnerByScore(White, scores.1 - scores.0))", "Some(WinnerByScore(White, (scores.1 - scores.0).floor() + 0.5))"))
C("b_terr_two", "C16", (T, "            if neutral.0 && !neutral.1 {", "            if neutral.0 && !neutral.1 && empty_group.len() > 1 || neutral.0 && empty_group.len() == 1 {"))
C("b_group_visit", "C16", (T, "                    .filter(|p| p.color == stone.color && !explored.contains(p)),", "                    .filter(|p| p.color == stone.color && !explored.contains(p) && p.coord != stone_to_explore.coord)\n                    .take(2),"))
C("b_chain_any", "C16", (T, "let is_handled = groups_of_stones.iter().any(|set| set.contains(&s));", "let is_handled = groups_of_stones.iter().rev().take(16).any(|set| set.contains(&s));"))
C("b_sgf_pass19", "C17", (S, "Action::Move(20, 20) => Move::Pass,", "Action::Move(20, _) => Move::Pass,"))
C("b_sgf_turn", "C17", (S, "first_player.get_or_insert((*color).into());", "first_player = Some((*color).into());"))
C("b_sgf_res", "C17", (S, "Outcome::WinnerByPoints(c, p) => EndGame::WinnerByScore(c.into(), p),", "Outcome::WinnerByPoints(c, p) => EndGame::WinnerByScore(c.into(), p.round()),"))
C("b_sgf_comma", "C17", (S, "                            game_builder.handicap(*handicap);", "                            game_builder.handicap(*handicap).turn(Color::White);"))
C("b_empty_idx", "C22", (G, "            .filter_map(|(idx, group)| group.is_none().then_some(idx))", "            .filter_map(|(idx, group)| (group.is_none() && idx < 360).then_some(idx))"))
C("b_pretty", "C22", (G, "                            (_, true, true, _) => '┗',", "                            (_, true, true, false) => '┗',"))
C("b_free_slot", "C24", (GR, "        if let Some(free) = self.0.iter().position(|e| e.is_none()) {", "        if let Some(free) = self.0.iter().skip(1).position(|e| e.is_none()).map(|p| p + 1) {"))
C("b_build_komi", "C25", (B, "        if let Some(komi) = self.komi {\n            self.rule.komi = komi;\n        }", "        if let Some(komi) = self.komi.filter(|k| *k >= 0.0) {\n            self.rule.komi = komi;\n        }"))
C("b_build_pass", "C25", (B, "Move::Pass if g.passes >= 2 => return", "Move::Pass if g.passes >= 2 && g.outcome.is_none() => return"))
C("b_build_handi", "C29", (B, "let handicap = self.handicap.unwrap_or(self.handicap_points.len() as u32);", "let handicap = self.handicap.unwrap_or(0).max(self.handicap_points.len() as u32);"))
C("b_rule_from", "C26", (M, '"CHI" => Ok(CHINESE)', '"CHI" | "CHN" => Ok(CHINESE)'))
C("b_eye_corner", "C27", (GA, "if [3, 2].contains(&total_corners) {", "if [3, 2].contains(&total_corners) && empty_corners.len() < 2 {"))
C("b_eye_helper", "C27", (GA, "                corner_off_board.push(p);", "                if p.0 != p.1 {\n                    corner_off_board.push(p);\n                }"))
C("b_dead_break", "C28", (D, "                    dead_chains.insert(chain_idx);\n                    break;", "                    dead_chains.insert(chain_idx);\n                    return dead_chains;"))
C("b_dead_legal", "C28", (D, ".legals_by(self.rule.flag_illegal | IllegalRules::FILLEYE)", ".legals_by(IllegalRules::SUICIDE | IllegalRules::KO | IllegalRules::FILLEYE)"))
C("b_dead_winner", "C28", (D, "        if winner == Some(*turn) {", "        if winner.is_none() || winner == Some(*turn) {"))
C("b_lib_iter", "C04", (GR, "            ixs.push(index - 1 + BITS * ix);", "            if ix < SIZE - 1 {\n                ixs.push(index - 1 + BITS * ix);\n            }"))
C("b_union", "C04", (GR, "        for &idx in stones_idx {\n            self.add_liberty_unchecked(idx);\n        }", "        for &idx in stones_idx {\n            if idx != self.last as usize + 1 {\n                self.add_liberty_unchecked(idx);\n            }\n        }"))
C("b_valid", "C01", (U, "(coord.0) < height && (coord.1) < width", "(coord.0) < height && (coord.1) <= width - 1"))
C("b_neighbor", "C01", (U, "            (x1, x2.wrapping_sub(1)),\n        ]\n    }\n\n    #[inline(always)]\n    pub fn valid", "            (x1, x2.saturating_sub(1)),\n        ]\n    }\n\n    #[inline(always)]\n    pub fn valid"))
C("b_two1", "C01", (U, "(point.0 as u32 * size.1 as u32 + point.1 as u32) as usize", "(point.0.wrapping_mul(size.1) as usize + if point.0 as u32 * size.1 as u32 > 255 { 256 } else { 0 }) + point.1 as usize"))
C("b_new_h", "C02", (G, "            height <= 19 && width <= 19,\n            \"We don't handle board > 19 for the moment\"\n        );\n        Goban {", "            height <= 19 && width <= 20,\n            \"We don't handle board > 19 for the moment\"\n        );\n        Goban {"))
C("b_winner_draw", "C32", (M, "EndGame::WinnerByScore(p, _)\n            |", "EndGame::WinnerByScore(p, x) if x > 0.0 => Some(p),\n            EndGame::WinnerByScore(p, _) => Some(match p { Color::Black => Color::White, Color::White => Color::Black }),\n            "))
