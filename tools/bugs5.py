"""planted bugs, fifth round"""
G, GR, T, U, ST = ("src/pieces/" + x + ".rs" for x in ("goban", "group", "territory", "util", "stones"))
GA, B, S, D, M = ("src/rules/" + x + ".rs" for x in ("game", "game_builder", "sgf_bridge", "dead_stones", "mod"))
CASES = [
    ("u_suicide_connect", "C10", [(GA, "                        !neighbor_go_string.is_atari()\n", "                        neighbor_go_string.number_of_liberties() > 2\n")]),
    ("u_suicide_size", "C10", [(GA, "                        // Capture move\n                        neighbor_go_string.is_atari()\n", "                        // Capture move\n                        neighbor_go_string.is_atari() && neighbor_go_string.num_stones < 20\n")]),
    ("u_ko_nolib", "C11", [(GA, "                    neighbor_go_string.is_atari() && neighbor_go_string.num_stones > 1\n", "                    neighbor_go_string.num_stones > 1\n")]),
    ("u_ko_keep", "C11", [(GA, "                self.turn = !self.turn;\n                self.ko_point = None;\n                self.passes += 1;\n", "                self.turn = !self.turn;\n                if self.passes > 0 {\n                    self.ko_point = None;\n                }\n                self.passes += 1;\n")]),
    ("u_superko_no_self", "C12", [(GA, "is_it_ko || to_check == self.goban || self.history.contains(&to_check)", "is_it_ko || (self.passes == 0 && to_check == self.goban) || self.history.contains(&to_check)")]),
    ("u_prisoner_swap", "C13", [(GA, "        self.prisoners.1 += white_prisoners;\n", "        self.prisoners.1 = self.prisoners.1.max(self.prisoners.1 + white_prisoners - 1) + white_prisoners.min(1);\n")]),
    ("u_aux_ko_two", "C11", [(G, "        let only_one_ren_removed = dead_rens_indices.len() == 1;", "        let only_one_ren_removed = dead_rens_indices.len() <= 2;")]),
    ("u_aux_suicide_ko", "C11", [(G, "            ko_point = None;\n            self.remove_chain(added_chain);", "            self.remove_chain(added_chain);")]),
    ("u_removed_color", "C13", [(G, "                Color::White => {\n                    stones_removed.0 += maybe_dead_chain.num_stones as u32;\n                }\n                Color::Black => {\n                    stones_removed.1 += maybe_dead_chain.num_stones as u32;\n                }\n            }\n            ko_point", "                Color::White => {\n                    stones_removed.1 += maybe_dead_chain.num_stones as u32;\n                }\n                Color::Black => {\n                    stones_removed.0 += maybe_dead_chain.num_stones as u32;\n                }\n            }\n            ko_point")]),
    ("u_remove_own", "C04", [(G, "            neighbors_chains.retain(|x| *x != ren_to_remove_idx);\n", "            neighbors_chains.retain(|x| *x != ren_to_remove_idx && self.chains[*x].color != color_of_the_string);\n            neighbors_chains.truncate(3);\n")]),
    ("u_merge_lib", "C04", [(G, "                self.chains[to_merge].remove_liberty(pushed_stone_idx);\n                to_merge", "                if self.chains[to_merge].number_of_liberties() > 1 {\n                    self.chains[to_merge].remove_liberty(pushed_stone_idx);\n                }\n                to_merge")]),
    ("u_merge_cmp", "C03", [(G, "                        self.merge_strings(to_merge, adj_ren);\n                    } else {", "                        self.merge_strings(adj_ren, to_merge);\n                    } else {")]),
    ("u_push_union", "C04", [(G, "                    .union_liberties_slice(&liberties);", "                    .union_liberties_slice(&liberties[..liberties.len().min(2)]);")]),
    ("u_origin", "C05", [(G, "one_to_2dim(self.size(), dead_chain.origin as usize)", "one_to_2dim((self.size().0, self.size().0), dead_chain.origin as usize)")]),
    ("u_groups_dup", "C05", [(G, "                if !array_vec.contains(&(idx.get() as usize)) {\n                    array_vec.push(idx.get() as usize);\n                }", "                if array_vec.last() != Some(&(idx.get() as usize)) {\n                    array_vec.push(idx.get() as usize);\n                }")]),
    ("u_coords_color", "C22", [(G, "        for board_idx in 0..self.size.0 as usize * self.size.1 as usize {\n            match color {", "        for board_idx in 0..self.size.0 as usize * self.size.0 as usize {\n            match color {")]),
    ("u_lib_first", "C05", [(G, "            .filter(|&x| self.get_color(x).is_none())", "            .filter(|&x| self.get_color(x).is_none())\n            .take(3)")]),
    ("u_pretty_row", "C22", [(G, "                            i == self.size.0 as Nat - 1,", "                            i == self.size.1 as Nat - 1,")]),
    ("u_eye_cross", "C27", [(GA, "            .any(|s| s.color != Some(color))\n        {\n            return false;", "            .any(|s| s.color == Some(!color))\n        {\n            return false;")]),
    ("u_eye_second", "C27", [(GA, "                if c == 3 || c == 2 {", "                if c >= 3 {")]),
    ("u_eye_corner", "C27", [(GA, "        let total_corners = corner_ally.len() + corner_off_board.len();", "        let total_corners = corner_ally.len() + corner_off_board.len().min(2);")]),
    ("u_score_prisoner", "C15", [(GA, "            black_score += self.prisoners.0 as f32;", "            black_score += self.prisoners.0.min(99) as f32;")]),
    ("u_score_komi", "C15", [(GA, "        if rule.contains(ScoreRules::KOMI) {", "        if rule.contains(ScoreRules::KOMI) && self.handicap < 2 {")]),
    ("u_outcome_pass", "C14", [(GA, "            self.passes >= 2\n", "            self.passes >= 2 && !self.rule.flag_score.is_empty()\n")]),
    ("u_try_paused", "C09", [(GA, "        if self.passes == 2 {\n            Err(PlayError::GamePaused)", "        if self.passes == 2 && !matches!(play, Move::Resign(_)) {\n            Err(PlayError::GamePaused)")]),
    ("u_check_ruleby", "C08", [(GA, "illegal_rules.contains(IllegalRules::SUPERKO) && self.check_super_ko(stone)", "self.rule.flag_illegal.contains(IllegalRules::SUPERKO) && self.check_super_ko(stone)")]),
    ("u_check_eyecolor", "C08", [(GA, "illegal_rules.contains(IllegalRules::FILLEYE) && self.check_eye(stone)", "illegal_rules.contains(IllegalRules::FILLEYE) && illegal_rules.contains(IllegalRules::SUICIDE) && self.check_eye(stone)")]),
    ("u_verif_rule", "C12", [(GA, "        let (dead_go_strings, added_ren) = test_goban.push_wth_feedback((x, y), self.turn);", "        let (dead_go_strings, added_ren) = test_goban.push_wth_feedback((x, y), if self.passes == 0 { self.turn } else { !self.turn });")]),
    ("u_capture_self", "C21", [(GA, "            .any(|go_str| go_str.color != self.turn && go_str.is_atari())", "            .any(|go_str| go_str.color != self.turn && go_str.number_of_liberties() <= 2)")]),
    ("u_handi_turn", "C29", [(GA, "        self.turn = Color::White;\n    }", "        if self.handicap > 1 {\n            self.turn = Color::White;\n        }\n    }")]),
    ("u_build_outcome", "C25", [(B, "            outcome: self.outcome,\n            turn,", "            outcome: self.outcome.filter(|_| !self.moves.is_empty()),\n            turn,")]),
    ("u_build_setup_turn", "C25", [(B, "            self.turn.unwrap_or(if handicap != 0 {", "            self.turn.unwrap_or(if handicap > 1 {")]),
    ("u_build_move_turn", "C25", [(B, "            g.play(m);\n", "            if !g.is_over() {\n                g.play(m);\n            }\n")]),
    ("u_build_free_color", "C25", [(B, "                Move::Play(x, y) => check_free_point(&g.goban, (x, y))?,", "                Move::Play(x, y) => check_free_point(&goban, (x, y))?,")]),
    ("u_sgf_rule", "C18", [(S, "if !matches!(rule, RuleSet::Japanese | RuleSet::Chinese) {", "if !matches!(rule, RuleSet::Japanese | RuleSet::Chinese | RuleSet::GOE) {")]),
    ("u_terr_one", "C16", [(T, "if neutral.0 && neutral.1 {", "if neutral.0 && neutral.1 || !neutral.0 && !neutral.1 {")]),
    ("u_float_two", "C28", [(D, ".filter(|(_, v)| *v >= 2)", ".filter(|(_, v)| *v == 2)")]),
    ("u_float_mod", "C28", [(D, "                    .or_insert(1);", "                    .or_insert(2);")]),
    ("u_legal_eye", "C28", [(D, "                if !state.check_eye(Stone {\n                    coord: coordinates,\n                    color: state.turn(),\n                }) {", "                if !state.check_eye(Stone {\n                    coord: coordinates,\n                    color: !state.turn(),\n                }) {")]),
    ("u_winner_leaf", "C28", [(D, "        if winner == Some(*turn) {", "        if winner.is_none() || winner == Some(*turn) {")]),
    ("u_group_last", "C03", [(GR, "            last: stone as u16,", "            last: stone as u8 as u16,")]),
    ("u_color_try", "C32", [(ST, "            Color::Black => Color::White,\n            Color::White => Color::Black,", "            Color::Black => Color::White,\n            Color::White => Color::White,")]),
]
