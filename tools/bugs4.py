"""Third set of planted bugs, written from the statements of the properties alone."""
G = "src/pieces/goban.rs"
GR = "src/pieces/group.rs"
U = "src/pieces/util.rs"
T = "src/pieces/territory.rs"
ST = "src/pieces/stones.rs"
GA = "src/rules/game.rs"
B = "src/rules/game_builder.rs"
M = "src/rules/mod.rs"
S = "src/rules/sgf_bridge.rs"
D = "src/rules/dead_stones.rs"
CASES = [
    ("v_atari_bytes", "C04", [(GR, "        self.number_of_liberties() == 1\n", "        self.liberties.iter().filter(|&&b| b != 0).count() == 1\n")]),
    ("v_iter_shr", "C04", [(GR, "chunk.checked_shr(zeros + 1).unwrap_or(0)", "chunk.wrapping_shr(zeros + 1)")]),
    ("v_any_last", "C04", [(GR, "    lib.iter().any(|&x| x != 0)", "    lib[..SIZE - 1].iter().any(|&x| x != 0)")]),
    ("v_merge_zip", "C03", [(GR, "lib.iter_mut().zip(o).for_each(|(x, o)| x.bitor_assign(o))", "lib.iter_mut().zip(o).take(45).for_each(|(x, o)| x.bitor_assign(o))")]),
    ("v_get_mask", "C04", [(GR, "    (lib[chunk] & (1 << bit_index)) != 0", "    (lib[chunk] >> bit_index) == 1")]),
    ("v_new_num", "C03", [(GR, "            liberties,\n            num_stones: 1,", "            liberties,\n            num_stones: if stone == 0 { 0 } else { 1 },")]),
    ("v_hint", "C24", [(GR, "self.0.iter().position(|e| e.is_none())", "self.0.iter().rposition(|e| e.is_none()).filter(|&f| f + 1 < self.0.len())")]),
    ("v_iteridx", "C28", [(GR, "            .enumerate()\n            .filter_map(|(idx, e)| e.map(|e| (idx, e)))", "            .filter_map(|e| e.as_ref().copied())\n            .enumerate()")]),
    ("v_will_color", "C05", [(GA, ".any(|go_str| go_str.color != self.turn && go_str.is_atari())", ".any(|go_str| go_str.is_atari())")]),
    ("v_suicide_turn", "C10", [(GA, "                    if neighbor_go_string.color == stone.color {\n", "                    if neighbor_go_string.color == self.turn {\n")]),
    ("v_ko_two", "C11", [(GA, "neighbor_go_string.is_atari() && neighbor_go_string.num_stones > 1", "neighbor_go_string.is_atari() && neighbor_go_string.num_stones > 2")]),
    ("v_ko_noatari", "C11", [(GA, "neighbor_go_string.is_atari() && neighbor_go_string.num_stones > 1", "neighbor_go_string.num_stones > 1")]),
    ("v_ko_multi", "C11", [(G, "if dead_chain.num_stones == 1 && only_one_ren_removed {", "if dead_chain.num_stones == 1 {")]),
    ("v_hist_super", "C12", [(GA, "                self.history.insert(self.goban.clone());\n", "                if self.passes == 0 {\n                    self.history.insert(self.goban.clone());\n                }\n")]),
    ("v_hist_cap", "C12", [(GA, "                self.history.insert(self.goban.clone());\n", "                if self.history.len() >= 1024 {\n                    self.history.clear();\n                }\n                self.history.insert(self.goban.clone());\n")]),
    ("v_superko_hash", "C12", [(GA, "self.history.contains(&to_check)", "self.history.iter().any(|g| g.zobrist_hash() & 0xffff_ffff == to_check.zobrist_hash() & 0xffff_ffff)")]),
    ("v_superko_turn", "C12", [(GA, "        let to_check = self.play_for_verification(stone.coord);\n", "        let mut to_check = self.goban.clone();\n        to_check.push_stone(stone);\n")]),
    ("v_try_pass", "C14", [(GA, "        if self.passes == 2 {\n            Err(PlayError::GamePaused)", "        if self.passes == 2 && !matches!(play, Move::Resign(_)) {\n            Err(PlayError::GamePaused)")]),
    ("v_try_ko", "C09", [(GA, "                    } else if let Some(c) = self.check_point((x as Nat, y as Nat)) {\n                        Err(c)", "                    } else if let Some(c) = self.check_point((x as Nat, y as Nat)) {\n                        if c == PlayError::Ko {\n                            self.ko_point = None;\n                        }\n                        Err(c)")]),
    ("v_try_over", "C09", [(GA, "        if self.passes == 2 {\n            Err(PlayError::GamePaused)", "        if self.is_over() {\n            Err(PlayError::GamePaused)")]),
    ("v_check_turn", "C10", [(GA, "illegal_rules.contains(IllegalRules::SUICIDE) && self.check_suicide(stone)", "illegal_rules.contains(IllegalRules::SUICIDE) && !self.will_capture(coord) && self.goban.get_connected_groups(coord).len() > 1 && self.check_suicide(stone)")]),
    ("v_check_order", "C08", [(GA, "        } else if illegal_rules.contains(IllegalRules::SUICIDE) && self.check_suicide(stone) {\n            Some(PlayError::Suicide)\n        } else if illegal_rules.contains(IllegalRules::KO) && self.check_ko(stone) {\n            Some(PlayError::Ko)\n", "        } else if illegal_rules.contains(IllegalRules::KO) && self.check_ko(stone) {\n            Some(PlayError::Ko)\n        } else if illegal_rules.contains(IllegalRules::SUICIDE) && self.check_suicide(stone) {\n            Some(PlayError::Suicide)\n")]),
    ("v_check_supko", "C08", [(GA, "illegal_rules.contains(IllegalRules::SUPERKO) && self.check_super_ko(stone)", "self.rule.flag_illegal.contains(IllegalRules::SUPERKO) && self.check_super_ko(stone)")]),
    ("v_check_inter", "C08", [(GA, "illegal_rules.contains(IllegalRules::KO) && self.check_ko(stone)", "illegal_rules.intersects(IllegalRules::KO | IllegalRules::SUPERKO) && self.check_ko(stone)")]),
    ("v_sim_flag", "C21", [(GA, "        let (dead_go_strings, added_ren) = test_goban.push_wth_feedback((x, y), self.turn);\n        test_goban.remove_captured_stones_aux(\n            !self.rule.flag_illegal.contains(IllegalRules::SUICIDE),", "        let (dead_go_strings, added_ren) = test_goban.push_wth_feedback((x, y), self.turn);\n        test_goban.remove_captured_stones_aux(\n            !self.rule.flag_illegal.contains(IllegalRules::SUICIDE) && dead_go_strings.is_empty() && self.ko_point.is_none(),")]),
    ("v_resign_turn", "C13", [(GA, "                self.outcome = Some(EndGame::WinnerByResign(!player));\n", "                self.outcome = Some(EndGame::WinnerByResign(!player));\n                self.turn = !player;\n")]),
    ("v_resign_self", "C14", [(GA, "                self.outcome = Some(EndGame::WinnerByResign(!player));\n", "                self.outcome = Some(EndGame::WinnerByResign(!self.turn));\n                let _ = player;\n")]),
    ("v_resume_hist", "C14", [(GA, "    pub fn resume(&mut self) {\n        self.passes = 0;", "    pub fn resume(&mut self) {\n        if self.passes >= 2 {\n            self.turn = Color::Black;\n        }\n        self.passes = 0;")]),
    ("v_over_passes", "C14", [(GA, "            true\n        } else {\n            self.passes >= 2", "            true\n        } else {\n            self.passes >= 2 && self.history.len() > 0")]),
    ("v_outcome_first", "C14", [(GA, "        } else if self.outcome.is_some() {\n            self.outcome\n", "        } else if self.outcome.is_some() && self.passes < 2 {\n            self.outcome\n")]),
    ("v_score_default", "C15", [(GA, "        if rule.contains(ScoreRules::KOMI) {\n", "        if self.rule.flag_score.contains(ScoreRules::KOMI) {\n")]),
    ("v_score_neg", "C15", [(GA, "            white_score += self.komi();\n", "            white_score += self.komi().max(0.0);\n")]),
    ("v_score_stones", "C15", [(GA, "            black_score += black_stones as f32;\n", "            black_score += black_stones as f32 - self.handicap as f32;\n")]),
    ("v_terr_mix", "C16", [(T, "                    if neutral.0 && neutral.1 {\n                        // if the territory is surrounded by two colors then pass\n                        continue 'outer;", "                    if neutral.0 && neutral.1 && empty_group.len() > 2 {\n                        // if the territory is surrounded by two colors then pass\n                        continue 'outer;")]),
    ("v_terr_else", "C16", [(T, "            } else if !neutral.0 && neutral.1 {\n", "            } else if neutral.1 {\n")]),
    ("v_group_start", "C16", [(T, "        explored.insert(stone);\n\n", "        if stone.color.is_some() {\n            explored.insert(stone);\n        }\n\n")]),
    ("v_sgf_xy", "C17", [(S, "game_builder.size((*y as u8, *x as u8));", "game_builder.size((*x as u8, *y as u8));")]),
    ("v_sgf_tt", "C17", [(S, "            Action::Move(20, 20) => Move::Pass,", "            Action::Move(20, _) => Move::Pass,")]),
    ("v_sgf_lim", "C18", [(S, "if *x > 19 || *y > 19 {", "if *x > 19 && *y > 19 {")]),
    ("v_sgf_rule", "C18", [(S, "if !matches!(rule, RuleSet::Japanese | RuleSet::Chinese) {", "if matches!(rule, RuleSet::Unknown(_)) {")]),
    ("v_sgf_game", "C18", [(S, "if *go != sgf_parser::Game::Go {", "if *go != sgf_parser::Game::Go && first_player.is_some() {")]),
    ("v_sgf_first", "C17", [(S, "                    first_player.get_or_insert((*color).into());\n", "                    first_player = Some((*color).into());\n")]),
    ("v_sgf_komi", "C17", [(S, "                            game_builder.komi(*komi);\n", "                            if *komi != 0.0 {\n                                game_builder.komi(*komi);\n                            }\n")]),
    ("v_build_free", "C25", [(B, "        for s in self.setup {\n            check_free_point(&goban, s.coord)?;\n", "        for s in self.setup {\n            if !is_coord_valid(goban.size(), s.coord) {\n                return Err(\"outside\".to_string());\n            }\n")]),
    ("v_build_handi_turn", "C25", [(B, "            self.turn.unwrap_or(if handicap != 0 {\n", "            self.turn.unwrap_or(if !goban.get_stones().next().is_none() {\n")]),
    ("v_build_komi0", "C25", [(B, "        if let Some(komi) = self.komi {\n", "        if let Some(komi) = self.komi.filter(|k| *k > 0.0) {\n")]),
    ("v_build_turn_moves", "C25", [(B, "            g.play(m);\n        }\n\n        Ok(g)", "            g.play(m);\n        }\n        g.handicap = handicap.max(g.handicap);\n        if let Some(t) = self.turn {\n            g.turn = t;\n        }\n\n        Ok(g)")]),
    ("v_build_keep", "C25", [(B, "        let this = take(self);\n\n        this.build_inner()", "        let this = GameBuilder {\n            moves: take(&mut self.moves),\n            setup: take(&mut self.setup),\n            handicap_points: self.handicap_points.clone(),\n            rule: self.rule,\n            komi: self.komi,\n            handicap: None,\n            size: self.size,\n            turn: self.turn,\n            outcome: self.outcome,\n            black_player: take(&mut self.black_player),\n            white_player: take(&mut self.white_player),\n        };\n\n        this.build_inner()")]),
    ("v_handi_turn", "C29", [(GA, "        self.turn = Color::White;\n", "        self.turn = if points.len() > 1 { Color::White } else { Color::Black };\n")]),
    ("v_handi_len", "C29", [(GA, "        self.handicap = points.len() as u32;\n", "        self.handicap += points.len() as u32;\n")]),
    ("v_eye_none", "C27", [(GA, "            .any(|s| s.color != Some(color))\n", "            .any(|s| s.color == Some(!color))\n")]),
    ("v_eye_three", "C27", [(GA, "        if total_corners == 4 {", "        if corner_off_board.is_empty() && total_corners >= 3 || total_corners == 4 {")]),
    ("v_eye_off", "C27", [(GA, "                let c = ca.len() + cof.len();\n", "                let c = ca.len();\n                let _ = cof;\n")]),
    ("v_float_eye", "C28", [(D, "            .filter(|(_, v)| *v >= 2)\n", "            .filter(|(_, v)| *v > 2)\n")]),
    ("v_float_color", "C28", [(D, "            }) || self.check_eye(Stone {\n                coord: p,\n                color: Color::White,", "            }) && self.check_eye(Stone {\n                coord: p,\n                color: Color::White,")]),
    ("v_dead_turn", "C28", [(D, "        if winner == Some(*turn) {\n", "        if winner != Some(!*turn) {\n")]),
    ("v_dead_empty", "C28", [(D, "                if final_state_raw.get_color(stone.coord) != Some(stone.color) {", "                if final_state_raw.get_color(stone.coord).is_none() {")]),
    ("v_dead_play", "C28", [(D, "                .filter(|&point| state.check_point(point).is_none())\n", "                .filter(|&point| state.check_point_by(point, IllegalRules::KO).is_none())\n")]),
    ("v_rm_hash", "C30", [(G, "            self.zobrist_hash ^= index_zobrist(point_idx, color_of_the_string);\n            self.board[point_idx] = None;", "            if self.board[point_idx].take().is_some() && chain.num_stones < 64 {\n                self.zobrist_hash ^= index_zobrist(point_idx, color_of_the_string);\n            }")]),
    ("v_rm_lib", "C30", [(G, "            for &n in &neighbors_chains {\n                self.chains[n].add_liberty(point_idx);\n", "            for &n in neighbors_chains.iter().take(3) {\n                self.chains[n].add_liberty(point_idx);\n")]),
    ("v_add_origin", "C03", [(G, "        if stone < group.origin as usize {\n", "        if stone < group.last as usize {\n")]),
    ("v_merge_last", "C03", [(G, "        if chain1_origin > chain2_origin {\n", "        if chain1_last > chain2_last {\n")]),
    ("v_merge_num", "C03", [(G, "        chain1.num_stones += chain2.num_stones;\n", "        chain1.num_stones = chain1.num_stones.max(chain2.num_stones) + chain1.num_stones.min(chain2.num_stones).min(180);\n")]),
    ("v_one_lib", "C04", [(G, "                self.chains[only_ren_idx]\n                    .remove_liberty(pushed_stone_idx)\n                    .union_liberties_slice(&liberties);", "                self.chains[only_ren_idx]\n                    .union_liberties_slice(&liberties)\n                    .remove_liberty(liberties.first().copied().filter(|_| false).unwrap_or(pushed_stone_idx));")]),
    ("v_pris_color", "C05", [(G, "                Color::White => {\n                    stones_removed.0 += maybe_dead_chain.num_stones as u32;\n                }\n                Color::Black => {\n                    stones_removed.1 += maybe_dead_chain.num_stones as u32;", "                Color::Black => {\n                    stones_removed.0 += maybe_dead_chain.num_stones as u32;\n                }\n                Color::White => {\n                    stones_removed.1 += maybe_dead_chain.num_stones as u32;")]),
    ("v_suicide_after", "C05", [(G, "        if suicide_allowed && maybe_dead_chain.is_dead() {\n", "        if suicide_allowed && dead_rens_indices.is_empty() && maybe_dead_chain.is_dead() && maybe_dead_chain.num_stones > 1 {\n")]),
    ("v_eq_sq", "C07", [(G, "            for y in 0..self.size.1 {\n", "            for y in 0..self.size.0.min(self.size.1) {\n")]),
    ("v_eq_hash", "C07", [(G, "        if self.size != other.size || self.zobrist_hash != other.zobrist_hash {\n            return false;\n        }\n", "        if self.size != other.size {\n            return false;\n        }\n        if self.zobrist_hash == other.zobrist_hash {\n            return true;\n        }\n")]),
    ("v_hash_size", "C07", [(G, "        state.write_u64(self.zobrist_hash);\n", "        state.write_u64(self.zobrist_hash ^ self.chains.0.len() as u64);\n")]),
    ("v_stones_len", "C22", [(G, "        (black_stones, white_stones)\n    }\n\n    #[inline]\n    pub(crate) fn board", "        (black_stones, white_stones.min(black_stones + 180))\n    }\n\n    #[inline]\n    pub(crate) fn board")]),
    ("v_matrix_chunk", "C22", [(G, "chunks_exact(self.size.1 as usize)", "chunks_exact(self.size.0.max(self.size.1) as usize)")]),
    ("v_tovec_len", "C22", [(G, "    pub fn to_vec(&self) -> Vec<MaybeColor> {\n        let board_length = self.size.0 as usize * self.size.1 as usize;", "    pub fn to_vec(&self) -> Vec<MaybeColor> {\n        let board_length = self.size.0 as usize * self.size.0 as usize;")]),
    ("v_pretty_corner", "C22", [(G, "                            (true, _, _, true) => '┓',", "                            (true, _, false, true) => '┓',")]),
    ("v_from_pass", "C32", [(M, "        Move::Play(x0, x1)", "        if (x0, x1) == (19, 19) {\n            Move::Pass\n        } else {\n            Move::Play(x0, x1)\n        }")]),
    ("v_winner_draw", "C32", [(M, "            EndGame::WinnerByScore(p, _)\n", "            EndGame::WinnerByScore(_, s) if s == 0.0 => None,\n            EndGame::WinnerByScore(p, _)\n")]),
    ("v_preset_jap", "C26", [(M, "        \"JAP\" => Ok(JAPANESE)", "        \"JAP\" | \"jap\" => Ok(JAPANESE)")]),
    ("v_sizes_zero", "C02", [(M, "                    height <= 19 && width <= 19,\n", "                    height <= 19 || width <= 19,\n")]),
    ("v_corner_order", "C01", [(U, "            (x1 + 1, x2.wrapping_sub(1)),\n            (x1.wrapping_sub(1), x2 + 1),", "            (x1 + 1, x2.saturating_sub(1)),\n            (x1.wrapping_sub(1), x2 + 1),")]),
    ("v_empties_hash", "C20", [(G, "    pub fn get_empty_idx(&self) -> impl Iterator<Item = BoardIdx> + '_ {\n        let board_length = self.size.0 as usize * self.size.1 as usize;\n        self.board[..board_length]\n            .iter()\n            .enumerate()\n            .filter_map(|(idx, group)| group.is_none().then_some(idx))", "    pub fn get_empty_idx(&self) -> impl Iterator<Item = BoardIdx> + '_ {\n        let board_length = self.size.0 as usize * self.size.1 as usize;\n        self.board[..board_length]\n            .iter()\n            .enumerate()\n            .filter_map(|(idx, group)| group.is_none().then_some(idx))\n            .collect::<std::collections::HashSet<_>>()\n            .into_iter()")]),
]
