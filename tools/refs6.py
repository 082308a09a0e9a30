"""edits that keep the behaviour, sixth round: what a person tidying up would do"""
G, GR, T, U, ST = ("src/pieces/" + x + ".rs" for x in ("goban", "group", "territory", "util", "stones"))
GA, B, S, D, M = ("src/rules/" + x + ".rs" for x in ("game", "game_builder", "sgf_bridge", "dead_stones", "mod"))
CASES = [
    ("t_atari_const", None, [(GR, "        self.number_of_liberties() == 1\n", "        let remaining = self.number_of_liberties();\n        matches!(remaining, 1)\n")]),
    ("t_set_locate", None, [(GR, "    let chunk = index / BITS;\n    let bit_index = index % BITS;\n    let mask = 1 << bit_index;\n    if VAL {", "    let (chunk, bit_index) = locate(index);\n    let mask = 1 << bit_index;\n    if VAL {"),
                            (GR, "fn get(index: usize, lib: &Liberties) -> bool {\n    let chunk = index / BITS;\n    let bit_index = index % BITS;\n    (lib[chunk] & (1 << bit_index)) != 0\n}", "fn get(index: usize, lib: &Liberties) -> bool {\n    let (chunk, bit_index) = locate(index);\n    (lib[chunk] & (1 << bit_index)) != 0\n}\n\n/// bucket and bit of a liberty\n#[inline(always)]\nfn locate(index: usize) -> (usize, usize) {\n    (index / BITS, index % BITS)\n}")]),
    ("t_ones_push", None, [(GR, "            let zeros = chunk.trailing_zeros();\n            index += zeros as usize + 1;\n            ixs.push(index - 1 + BITS * ix);\n            chunk = chunk.checked_shr(zeros + 1).unwrap_or(0);", "            let zeros = chunk.trailing_zeros();\n            ixs.push(index + zeros as usize + BITS * ix);\n            index += zeros as usize + 1;\n            chunk = chunk.checked_shr(zeros + 1).unwrap_or(0);")]),
    ("t_any_all", None, [(GR, "    lib.iter().any(|&x| x != 0)", "    !lib.iter().all(|&bucket| bucket == 0)")]),
    ("t_over_or", None, [(GA, "        if self.outcome.is_some() {\n            true\n        } else {\n            self.passes >= 2\n        }", "        let resigned = self.outcome.is_some();\n        let two_passes = self.passes >= 2;\n        resigned || two_passes")]),
    ("t_outcome_split", None, [(GA, "            let scores = self.calculate_score();\n            if (scores.0 - scores.1).abs() < f32::EPSILON {\n                Some(Draw)\n            } else if scores.0 > scores.1 {\n                Some(WinnerByScore(Black, scores.0 - scores.1))\n            } else {\n                Some(WinnerByScore(White, scores.1 - scores.0))\n            }\n        }\n    }\n", "            Some(self.outcome_by_score())\n        }\n    }\n\n    fn outcome_by_score(&self) -> EndGame {\n        let (black, white) = self.calculate_score();\n        if (black - white).abs() < f32::EPSILON {\n            return Draw;\n        }\n        if black > white {\n            WinnerByScore(Black, black - white)\n        } else {\n            WinnerByScore(White, white - black)\n        }\n    }\n")]),
    ("t_pseudo_chain", None, [(GA, "                if board[two_to_1dim(size, (i, j))].is_none() {\n                    vec.push((i, j));\n                }", "                let index = two_to_1dim(size, (i, j));\n                match board[index] {\n                    None => vec.push((i, j)),\n                    Some(_) => continue,\n                }")]),
    ("t_play_split", None, [(GA, "                assert!(self.passes < 2, \"This game is already paused\");\n                self.turn = !self.turn;\n                self.ko_point = None;\n                self.passes += 1;\n                self\n", "                self.pass_turn();\n                self\n"),
                            (GA, "    /// Plays a move then return the simulated goban,\n", "    fn pass_turn(&mut self) {\n        assert!(self.passes < 2, \"This game is already paused\");\n        self.passes += 1;\n        self.ko_point = None;\n        self.turn = !self.turn;\n    }\n\n    /// Plays a move then return the simulated goban,\n")]),
    ("t_play_place", None, [(GA, "                //let hash = self.goban.zobrist_hash();\n                self.history.insert(self.goban.clone());\n                let (dead_rens, added_ren) = self.goban.push_wth_feedback((x, y), self.turn);\n                self.ko_point = None;\n                self.remove_captured_stones(&dead_rens, added_ren);\n                //self.prisoners = self.remove_captured_stones();\n                self.turn = !self.turn;\n                self.passes = 0;\n                self\n", "                self.place_stone((x, y));\n                self\n"),
                            (GA, "    /// Plays a move then return the simulated goban,\n", "    fn place_stone(&mut self, point: Coord) {\n        let before = self.goban.clone();\n        self.history.insert(before);\n        let (dead_rens, added_ren) = self.goban.push_wth_feedback(point, self.turn);\n        self.passes = 0;\n        self.ko_point = None;\n        self.remove_captured_stones(&dead_rens, added_ren);\n        self.turn = !self.turn;\n    }\n\n    /// Plays a move then return the simulated goban,\n")]),
    ("t_verif_flag", None, [(GA, "        let (dead_go_strings, added_ren) = test_goban.push_wth_feedback((x, y), self.turn);\n        test_goban.remove_captured_stones_aux(\n            !self.rule.flag_illegal.contains(IllegalRules::SUICIDE),\n", "        let suicide_allowed = !self.rule.flag_illegal.contains(IllegalRules::SUICIDE);\n        let (dead_go_strings, added_ren) = test_goban.push_wth_feedback((x, y), self.turn);\n        test_goban.remove_captured_stones_aux(\n            suicide_allowed,\n")]),
    ("t_try_match", None, [(GA, "        if self.passes == 2 {\n            Err(PlayError::GamePaused)\n        } else {\n            match play {\n                Move::Play(x, y) => {\n                    if self.goban.get_color((x, y)) != EMPTY {\n                        Err(PlayError::PointNotEmpty)\n                    } else if let Some(c) = self.check_point((x as Nat, y as Nat)) {\n                        Err(c)\n                    } else {\n                        Ok(self.play(play))\n                    }\n                }\n                Move::Pass | Move::Resign(_) => Ok(self.play(play)),\n            }\n        }", "        if self.passes == 2 {\n            return Err(PlayError::GamePaused);\n        }\n        if let Move::Play(x, y) = play {\n            if self.goban.get_color((x, y)) != EMPTY {\n                return Err(PlayError::PointNotEmpty);\n            }\n            if let Some(error) = self.check_point((x as Nat, y as Nat)) {\n                return Err(error);\n            }\n        }\n        Ok(self.play(play))")]),
    ("t_handi_order", None, [(GA, "        self.handicap = points.len() as u32;\n        points.iter().for_each(|&coord| {\n            self.goban.push(coord, Color::Black);\n        });\n        self.turn = Color::White;", "        for coord in points {\n            self.goban.push(*coord, Color::Black);\n        }\n        self.turn = Color::White;\n        self.handicap = points.len() as u32;")]),
    ("t_score_helper", None, [(GA, "        if rule.contains(ScoreRules::PRISONNERS) {\n            black_score += self.prisoners.0 as f32;\n            white_score += self.prisoners.1 as f32;\n        }\n", "        if rule.contains(ScoreRules::PRISONNERS) {\n            let (by_black, by_white) = self.prisoners;\n            white_score += by_white as f32;\n            black_score += by_black as f32;\n        }\n")]),
    ("t_capture_loop", None, [(GA, "        self.goban\n            .get_connected_groups(point)\n            .into_iter()\n            .any(|go_str| go_str.color != self.turn && go_str.is_atari())", "        for group in self.goban.get_connected_groups(point) {\n            if group.color == self.turn {\n                continue;\n            }\n            if group.is_atari() {\n                return true;\n            }\n        }\n        false")]),
    ("t_check_early", None, [(GA, "        if self.goban.get_color(coord).is_some() {\n            Some(PlayError::PointNotEmpty)\n        } else if illegal_rules.contains(IllegalRules::SUICIDE) && self.check_suicide(stone) {\n            Some(PlayError::Suicide)\n        } else if", "        if self.goban.get_color(coord) != EMPTY {\n            return Some(PlayError::PointNotEmpty);\n        }\n        if illegal_rules.contains(IllegalRules::SUICIDE) && self.check_suicide(stone) {\n            return Some(PlayError::Suicide);\n        }\n        if")]),
    ("t_legals_for", None, [(GA, "        self.pseudo_legals()\n            .filter(move |&s| self.check_point_by(s, legals_rules).is_none())", "        let allowed = move |point: Coord| self.check_point_by(point, legals_rules).is_none();\n        self.pseudo_legals().filter(move |&point| allowed(point))")]),
    ("t_aux_count", None, [(G, "            match dead_chain.color {\n                Color::White => {\n                    stones_removed.0 += dead_chain.num_stones as u32;\n                }\n                Color::Black => {\n                    stones_removed.1 += dead_chain.num_stones as u32;\n                }\n            }\n            self.remove_chain(dead_ren_idx);", "            let captured = dead_chain.num_stones as u32;\n            if dead_chain.color == Color::White {\n                stones_removed.0 += captured;\n            } else {\n                stones_removed.1 += captured;\n            }\n            self.remove_chain(dead_ren_idx);")]),
    ("t_aux_early", None, [(G, "        let maybe_dead_chain = &self.chains[added_chain];\n        if suicide_allowed && maybe_dead_chain.is_dead() {\n            match", "        let maybe_dead_chain = &self.chains[added_chain];\n        let killed_itself = maybe_dead_chain.is_dead();\n        if killed_itself && suicide_allowed {\n            match")]),
    ("t_stones_filter", None, [(G, "        let mut black_stones = 0;\n        let mut white_stones = 0;\n\n        for group in self.chains.iter() {\n            match group.color {\n                Color::White => {\n                    white_stones += group.num_stones as u32;\n                }\n                Color::Black => {\n                    black_stones += group.num_stones as u32;\n                }\n            }\n        }\n\n        (black_stones, white_stones)", "        let count = |color: Color| -> u32 {\n            self.chains\n                .iter()\n                .filter(|group| group.color == color)\n                .map(|group| group.num_stones as u32)\n                .sum()\n        };\n        (count(Color::Black), count(Color::White))")]),
    ("t_push_helper", None, [(G, "        for ren_idx in adjacent_opposite_color_str_set {\n            let group = &mut self.chains[ren_idx];\n            group.remove_liberty(pushed_stone_idx);\n            if group.is_dead() {\n                dead_ren.push(ren_idx);\n            }\n        }\n", "        for ren_idx in adjacent_opposite_color_str_set {\n            if self.take_liberty(ren_idx, pushed_stone_idx) {\n                dead_ren.push(ren_idx);\n            }\n        }\n"),
                             (G, "    pub(crate) fn remove_captured_stones_aux(\n", "    /// removes a liberty of a group, true if that was its last one\n    fn take_liberty(&mut self, group: GroupIdx, liberty: BoardIdx) -> bool {\n        let group = &mut self.chains[group];\n        group.remove_liberty(liberty);\n        group.is_dead()\n    }\n\n    pub(crate) fn remove_captured_stones_aux(\n")]),
    ("t_push_ifelse", None, [(G, "                    if self.chains[adj_ren_index].color == color {\n                        if !adjacent_same_color_str_set.contains(&adj_ren_index) {\n                            adjacent_same_color_str_set.push(adj_ren_index);\n                        }\n                    } else if !adjacent_opposite_color_str_set.contains(&adj_ren_index) {\n                        adjacent_opposite_color_str_set.push(adj_ren_index);\n                    }", "                    let set = if self.chains[adj_ren_index].color == color {\n                        &mut adjacent_same_color_str_set\n                    } else {\n                        &mut adjacent_opposite_color_str_set\n                    };\n                    if !set.contains(&adj_ren_index) {\n                        set.push(adj_ren_index);\n                    }")]),
    ("t_push_lets", None, [(G, "        self.zobrist_hash ^= index_zobrist(pushed_stone_idx, color);\n        #[cfg(debug_assertions)]\n        self.check_integrity_all();\n        (dead_ren, updated_ren_index)", "        let key = index_zobrist(pushed_stone_idx, color);\n        self.zobrist_hash ^= key;\n        #[cfg(debug_assertions)]\n        self.check_integrity_all();\n        let feedback = (dead_ren, updated_ren_index);\n        feedback")]),
    ("t_many_for", None, [(G, "        points.iter().for_each(|&point| {\n            self.push(point, value);\n        })", "        for i in 0..points.len() {\n            self.push(points[i], value);\n        }")]),
    ("t_leaf_match", None, [(D, "        let winner = child.outcome().and_then(|outcome| outcome.get_winner());\n        if winner == Some(*turn) {\n            1\n        } else {\n            0\n        }", "        match child.outcome() {\n            Some(outcome) if outcome.get_winner() == Some(*turn) => 1,\n            _ => 0,\n        }")]),
    ("t_random_loop", None, [(D, "            for coordinates in v\n                .into_iter()\n                .filter(|&point| state.check_point(point).is_none())\n            {\n                if !state.check_eye(Stone {\n                    coord: coordinates,\n                    color: state.turn(),\n                }) {\n                    return coordinates.into();\n                }\n            }", "            let color = state.turn();\n            for coord in v {\n                if state.check_point(coord).is_some() {\n                    continue;\n                }\n                if !state.check_eye(Stone { coord, color }) {\n                    return coord.into();\n                }\n            }")]),
    ("t_float_filter", None, [(D, "        all_chains\n            .filter(|(idx, _chain)| !string_with_2eyes.contains(idx))\n            .map(|(idx, _chain)| idx)\n            .collect()", "        all_chains\n            .filter_map(|(idx, _chain)| (!string_with_2eyes.contains(&idx)).then_some(idx))\n            .collect()")]),
]
