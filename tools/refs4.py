"""Third set of behaviour-preserving edits."""
G = "src/pieces/goban.rs"
GR = "src/pieces/group.rs"
U = "src/pieces/util.rs"
T = "src/pieces/territory.rs"
ST = "src/pieces/stones.rs"
GA = "src/rules/game.rs"
B = "src/rules/game_builder.rs"
M = "src/rules/mod.rs"
S = "src/rules/sgf_bridge.rs"
D = "src/rules/dead_stones.rs"
CASES = [
    ("x_atari_iter", None, [(GR, "        self.number_of_liberties() == 1\n", "        let mut it = iter_ones(&self.liberties);\n        it.next().is_some() && it.next().is_none()\n")]),
    ("x_dead_count", None, [(GR, "        !any(&self.liberties)\n", "        self.number_of_liberties() == 0\n")]),
    ("x_any_loop", None, [(GR, "    lib.iter().any(|&x| x != 0)", "    for b in lib {\n        if *b != 0 {\n            return true;\n        }\n    }\n    false")]),
    ("x_merge_loop", None, [(GR, "    lib.iter_mut().zip(o).for_each(|(x, o)| x.bitor_assign(o))", "    for i in 0..SIZE {\n        lib[i].bitor_assign(o[i]);\n    }")]),
    ("x_count_fold", None, [(GR, "    lib.iter().map(|x| x.count_ones() as usize).sum()", "    lib.iter().fold(0, |acc, x| acc + x.count_ones() as usize)")]),
    ("x_get_shift", None, [(GR, "    (lib[chunk] & (1 << bit_index)) != 0", "    let mask: Bucket = 1 << bit_index;\n    lib[chunk] & mask == mask")]),
    ("x_free_loop", None, [(GR, "        if let Some(free) = self.0.iter().position(|e| e.is_none()) {\n            self.0[free] = Some(group);\n            return free;\n        }\n        self.0.push(Some(group));\n        self.0.len() - 1", "        match self.0.iter().position(Option::is_none) {\n            Some(free) => {\n                self.0[free].replace(group);\n                free\n            }\n            None => {\n                let idx = self.0.len();\n                self.0.push(Some(group));\n                idx\n            }\n        }")]),
    ("x_free_for", None, [(GR, "        if let Some(free) = self.0.iter().position(|e| e.is_none()) {\n            self.0[free] = Some(group);\n            return free;\n        }\n", "        for free in 0..self.0.len() {\n            if self.0[free].is_none() {\n                self.0[free] = Some(group);\n                return free;\n            }\n        }\n")]),
    ("x_iter_flatten", None, [(GR, "        self.0.iter().filter_map(|e| e.as_ref())", "        self.0.iter().flatten()")]),
    ("x_over_matches", None, [(GA, "        if self.outcome.is_some() {\n            true\n        } else {\n            self.passes >= 2\n        }", "        self.outcome.is_some() || self.passes >= 2")]),
    ("x_outcome_early", None, [(GA, "        if !self.is_over() {\n            None\n        } else if self.outcome.is_some() {\n            self.outcome\n        } else {", "        if let Some(result) = self.outcome {\n            Some(result)\n        } else if self.passes < 2 {\n            None\n        } else {")]),
    ("x_outcome_diff", None, [(GA, "            if (scores.0 - scores.1).abs() < f32::EPSILON {\n                Some(Draw)\n            } else if scores.0 > scores.1 {\n                Some(WinnerByScore(Black, scores.0 - scores.1))\n            } else {\n                Some(WinnerByScore(White, scores.1 - scores.0))\n            }", "            let (black, white) = scores;\n            Some(if (black - white).abs() < f32::EPSILON {\n                Draw\n            } else if white < black {\n                WinnerByScore(Black, black - white)\n            } else {\n                WinnerByScore(White, white - black)\n            })")]),
    ("x_pseudo_vec", None, [(GA, "        let size = self.size();\n        let mut vec = Vec::with_capacity(size.0 as usize * size.1 as usize);\n        let board = self.goban.board();\n        for i in 0..size.0 as Nat {\n            for j in 0..size.1 as Nat {\n                if board[two_to_1dim(size, (i, j))].is_none() {\n                    vec.push((i, j));\n                }\n            }\n        }\n        vec", "        let (h, w) = self.size();\n        let mut vec = Vec::with_capacity(h as usize * w as usize);\n        for i in 0..h {\n            for j in 0..w {\n                if self.goban.board()[two_to_1dim((h, w), (i, j))].is_some() {\n                    continue;\n                }\n                vec.push((i, j));\n            }\n        }\n        vec")]),
    ("x_play_common", None, [(GA, "                self.turn = !self.turn;\n                self.ko_point = None;\n                self.passes += 1;\n                self\n", "                self.passes += 1;\n                self.ko_point = None;\n                self.next_player();\n                self\n"), (GA, "                self.turn = !self.turn;\n                self.passes = 0;\n                self\n", "                self.passes = 0;\n                self.next_player();\n                self\n"), (GA, "    #[inline]\n    pub fn calculate_score(&self)", "    fn next_player(&mut self) {\n        self.turn = !self.turn;\n    }\n\n    #[inline]\n    pub fn calculate_score(&self)")]),
    ("x_play_ifs", None, [(GA, "                self.ko_point = None;\n                self.remove_captured_stones(&dead_rens, added_ren);", "                self.remove_captured_stones(&dead_rens, added_ren);")]),
    ("x_try_flat", None, [(GA, "        if self.passes == 2 {\n            Err(PlayError::GamePaused)\n        } else {\n            match play {\n                Move::Play(x, y) => {\n                    if self.goban.get_color((x, y)) != EMPTY {\n                        Err(PlayError::PointNotEmpty)\n                    } else if let Some(c) = self.check_point((x as Nat, y as Nat)) {\n                        Err(c)\n                    } else {\n                        Ok(self.play(play))\n                    }\n                }\n                Move::Pass | Move::Resign(_) => Ok(self.play(play)),\n            }\n        }", "        if self.passes == 2 {\n            return Err(PlayError::GamePaused);\n        }\n        if let Move::Play(x, y) = play {\n            if let Some(c) = self.check_point((x, y)) {\n                return Err(c);\n            }\n        }\n        Ok(self.play(play))"), (GA, "use crate::pieces::stones::{Color, Stone, EMPTY};", "use crate::pieces::stones::{Color, Stone};")]),
    ("x_handi_many", None, [(GA, "        points.iter().for_each(|&coord| {\n            self.goban.push(coord, Color::Black);\n        });\n", "        self.goban.push_many(points, Color::Black);\n")]),
    ("x_score_pris", None, [(GA, "        let mut black_score = black_score as f32;\n        let mut white_score = white_score as f32;\n        if rule.contains(ScoreRules::PRISONNERS) {\n            black_score += self.prisoners.0 as f32;\n            white_score += self.prisoners.1 as f32;\n        }\n", "        let (black_prisoners, white_prisoners) = if rule.contains(ScoreRules::PRISONNERS) {\n            self.prisoners\n        } else {\n            (0, 0)\n        };\n        let mut black_score = black_score as f32 + black_prisoners as f32;\n        let mut white_score = white_score as f32 + white_prisoners as f32;\n")]),
    ("x_check_steps", None, [(GA, "        if self.goban.get_color(coord).is_some() {\n            Some(PlayError::PointNotEmpty)\n        } else if illegal_rules.contains(IllegalRules::SUICIDE)", "        if self.goban.get_color(coord).is_some() {\n            return Some(PlayError::PointNotEmpty);\n        }\n        if illegal_rules.contains(IllegalRules::SUICIDE)")]),
    ("x_check_table", None, [(GA, "        } else if illegal_rules.contains(IllegalRules::KO) && self.check_ko(stone) {\n            Some(PlayError::Ko)\n        } else if illegal_rules.contains(IllegalRules::FILLEYE) && self.check_eye(stone) {\n            Some(PlayError::FillEye)\n        } else if illegal_rules.contains(IllegalRules::SUPERKO) && self.check_super_ko(stone) {\n            Some(PlayError::Ko)\n        } else {\n            None\n        }", "        } else {\n            self.check_repetition(stone, illegal_rules)\n        }"), (GA, "    fn helper_check_eye(", "    fn check_repetition(&self, stone: Stone, rules: IllegalRules) -> Option<PlayError> {\n        if rules.contains(IllegalRules::KO) && self.check_ko(stone) {\n            return Some(PlayError::Ko);\n        }\n        if rules.contains(IllegalRules::FILLEYE) && self.check_eye(stone) {\n            return Some(PlayError::FillEye);\n        }\n        if rules.contains(IllegalRules::SUPERKO) && self.check_super_ko(stone) {\n            return Some(PlayError::Ko);\n        }\n        None\n    }\n\n    fn helper_check_eye(")]),
    ("x_eye_struct", None, [(GA, "        let total_corners = corner_ally.len() + corner_off_board.len();\n\n        if total_corners == 4 {\n            return true;\n        }\n", "        let total_corners = corner_off_board.len() + corner_ally.len();\n        let all_corners = total_corners == 4;\n        if all_corners {\n            return true;\n        }\n")]),
    ("x_eye_range", None, [(GA, "if [3, 2].contains(&total_corners) {", "if total_corners >= 2 {")]),
    ("x_ko_early", None, [(GA, "        self.ko_point == Some(stone.coord)\n            && !self\n                .goban\n                .get_connected_groups(stone.coord)\n                .into_iter()\n                .any(|neighbor_go_string| {\n                    neighbor_go_string.is_atari() && neighbor_go_string.num_stones > 1\n                })", "        if self.ko_point != Some(stone.coord) {\n            return false;\n        }\n        self.goban\n            .get_connected_groups(stone.coord)\n            .into_iter()\n            .all(|group| group.num_stones <= 1 || !group.is_atari())")]),
    ("x_superko_order", None, [(GA, "        let to_check = self.play_for_verification(stone.coord);\n        let is_it_ko = self.check_ko(stone);\n        is_it_ko || to_check == self.goban || self.history.contains(&to_check)", "        if self.check_ko(stone) {\n            return true;\n        }\n        let next = self.play_for_verification(stone.coord);\n        self.history.contains(&next) || next == self.goban")]),
    ("x_suicide_all", None, [(GA, "        if self.goban.has_liberties(stone.coord) {\n            false\n        } else {\n            !self\n                .goban\n                .get_connected_groups(stone.coord)\n                .into_iter()\n                .any(|neighbor_go_string| {\n                    if neighbor_go_string.color == stone.color {\n                        // Connecting with another string which is not in danger\n                        !neighbor_go_string.is_atari()\n                    } else {\n                        // Capture move\n                        neighbor_go_string.is_atari()\n                    }\n                })\n        }", "        if self.goban.has_liberties(stone.coord) {\n            return false;\n        }\n        self.goban\n            .get_connected_groups(stone.coord)\n            .into_iter()\n            .all(|group| (group.color == stone.color) == group.is_atari())")]),
    ("x_capt_helper", None, [(G, "            match dead_chain.color {\n                Color::White => {\n                    stones_removed.0 += dead_chain.num_stones as u32;\n                }\n                Color::Black => {\n                    stones_removed.1 += dead_chain.num_stones as u32;\n                }\n            }\n", "            let count = u32::from(dead_chain.num_stones);\n            if dead_chain.color == Color::White {\n                stones_removed.0 += count;\n            } else {\n                stones_removed.1 += count;\n            }\n")]),
    ("x_rm_order", None, [(G, "            self.zobrist_hash ^= index_zobrist(point_idx, color_of_the_string);\n            self.board[point_idx] = None;", "            self.board[point_idx] = None;\n            self.zobrist_hash ^= index_zobrist(point_idx, color_of_the_string);")]),
    ("x_rm_filter", None, [(G, "            let mut neighbors_chains = self.get_connected_groups_idx(point_idx);\n            // We remove our group from the neighbors\n            neighbors_chains.retain(|x| *x != ren_to_remove_idx);\n\n            for &n in &neighbors_chains {\n                self.chains[n].add_liberty(point_idx);\n            }\n", "            for n in self.get_connected_groups_idx(point_idx) {\n                if n != ren_to_remove_idx {\n                    self.chains[n].add_liberty(point_idx);\n                }\n            }\n")]),
    ("x_push_let", None, [(G, "            let group = &mut self.chains[ren_idx];\n            group.remove_liberty(pushed_stone_idx);\n            if group.is_dead() {\n                dead_ren.push(ren_idx);\n            }\n", "            if self.chains[ren_idx].remove_liberty(pushed_stone_idx).is_dead() {\n                dead_ren.push(ren_idx);\n            }\n")]),
    ("x_push_assoc", None, [(G, "        self.zobrist_hash ^= index_zobrist(pushed_stone_idx, color);\n        #[cfg(debug_assertions)]", "        let key = index_zobrist(pushed_stone_idx, color);\n        self.zobrist_hash = key ^ self.zobrist_hash;\n        #[cfg(debug_assertions)]")]),
    ("x_add_tail", None, [(G, "        if stone < group.origin as usize {\n            // replace origin\n            self.next_stone[stone] = group.origin;\n            self.next_stone[group.last as usize] = stone as u16;\n            group.origin = stone as u16;\n        } else {\n            self.next_stone[group.last as usize] = stone as u16;\n            self.next_stone[stone] = group.origin;\n            group.last = stone as u16;\n        }", "        self.next_stone[stone] = group.origin;\n        self.next_stone[group.last as usize] = stone as u16;\n        if stone < group.origin as usize {\n            group.origin = stone as u16;\n        } else {\n            group.last = stone as u16;\n        }")]),
    ("x_stones_sum", None, [(G, "        for group in self.chains.iter() {\n            match group.color {\n                Color::White => {\n                    white_stones += group.num_stones as u32;\n                }\n                Color::Black => {\n                    black_stones += group.num_stones as u32;\n                }\n            }\n        }\n", "        for group in self.chains() {\n            let counter = match group.color {\n                Color::White => &mut white_stones,\n                Color::Black => &mut black_stones,\n            };\n            *counter += group.num_stones as u32;\n        }\n")]),
    ("x_matrix_rows", None, [(G, "        let mut mat = vec![];\n        let board_length = self.size.0 as usize * self.size.1 as usize;\n        for line in self.board[..board_length].chunks_exact(self.size.1 as usize) {\n            let v = line\n                .iter()\n                .map(|o| o.map_or(EMPTY, |idx| self.chains[idx].color.into()))\n                .collect();\n            mat.push(v);\n        }\n        mat", "        let board_length = self.size.0 as usize * self.size.1 as usize;\n        self.board[..board_length]\n            .chunks_exact(self.size.1 as usize)\n            .map(|line| {\n                line.iter()\n                    .map(|o| o.map(|idx| self.chains[idx].color))\n                    .collect()\n            })\n            .collect()")]),
    ("x_eq_zip", None, [(G, "        for x in 0..self.size.0 {\n            for y in 0..self.size.1 {\n                if self.get_color((x, y)) != other.get_color((x, y)) {\n                    return false;\n                }\n            }\n        }\n\n        true", "        let (height, width) = self.size;\n        (0..height).all(|x| (0..width).all(|y| self.get_color((x, y)) == other.get_color((x, y))))")]),
    ("x_eq_index", None, [(G, "        for x in 0..self.size.0 {\n            for y in 0..self.size.1 {\n                if self.get_color((x, y)) != other.get_color((x, y)) {\n                    return false;\n                }\n            }\n        }\n\n        true", "        let points = self.size.0 as usize * self.size.1 as usize;\n        (0..points).all(|i| self.get_color(i) == other.get_color(i))")]),
    ("x_eq_rev", None, [(G, "        for x in 0..self.size.0 {\n            for y in 0..self.size.1 {\n", "        for y in 0..self.size.1 {\n            for x in 0..self.size.0 {\n")]),
    ("x_terr_match", None, [(T, "                    if point.color == Some(Color::White) {\n                        neutral.1 = true; // found white stone\n                    }\n                    if point.color == Some(Color::Black) {\n                        neutral.0 = true; // found black stone\n                    }\n", "                    match point.color {\n                        Some(Color::White) => neutral.1 = true,\n                        Some(Color::Black) => neutral.0 = true,\n                        None => {}\n                    }\n")]),
    ("x_terr_end", None, [(T, "            if neutral.0 && !neutral.1 {\n                black_territory.extend(empty_group.into_iter())\n            } else if !neutral.0 && neutral.1 {\n                white_territory.extend(empty_group.into_iter())\n            }", "            match neutral {\n                (true, false) => black_territory.extend(empty_group),\n                (false, true) => white_territory.extend(empty_group),\n                _ => {}\n            }")]),
    ("x_build_turn", None, [(B, "        let turn = {\n            self.turn.unwrap_or(if handicap != 0 {\n                Color::White\n            } else {\n                Color::Black\n            })\n        };\n", "        let turn = match self.turn {\n            Some(turn) => turn,\n            None if handicap == 0 => Color::Black,\n            None => Color::White,\n        };\n")]),
    ("x_build_helper", None, [(B, "        for point in self.handicap_points {\n            check_free_point(&goban, point)?;\n            goban.push(point, Color::Black);\n        }\n\n        // Setup\n        for s in self.setup {\n            check_free_point(&goban, s.coord)?;\n            goban.push_stone(s);\n        }\n", "        for point in self.handicap_points {\n            place(&mut goban, Stone { coord: point, color: Color::Black })?;\n        }\n\n        // Setup\n        for s in self.setup {\n            place(&mut goban, s)?;\n        }\n"), (B, "fn check_free_point(", "fn place(goban: &mut Goban, stone: Stone) -> Result<(), String> {\n    check_free_point(goban, stone.coord)?;\n    goban.push_stone(stone);\n    Ok(())\n}\n\nfn check_free_point(")]),
    ("x_sgf_player", None, [(S, "        if let Some(player) = first_player {\n            game_builder.turn(player);\n        }\n        game_builder.moves(&moves);\n", "        game_builder.moves(&moves);\n        if let Some(player) = first_player {\n            game_builder.turn(player);\n        }\n")]),
    ("x_sgf_color", None, [(S, "                                color: match color {\n                                    SgfColor::Black => Color::Black,\n                                    SgfColor::White => Color::White,\n                                },\n", "                                color: (*color).into(),\n")]),
    ("x_sgf_parse", None, [(S, "        let game_tree = match sgf_parser::parse(sgf_str) {\n            Ok(game) => Ok(game),\n            Err(e) => Err(e.to_string()),\n        }?;", "        let game_tree = sgf_parser::parse(sgf_str).map_err(|e| e.to_string())?;")]),
    ("x_dead_any", None, [(D, "            for stone in self.chain_stones(chain_idx) {\n                // If some stones of the string aren't in the final goban then it's plausible that\n                // this string is dead.\n                if final_state_raw.get_color(stone.coord) != Some(stone.color) {\n                    dead_chains.insert(chain_idx);\n                    break;\n                }\n            }", "            let lost = self\n                .chain_stones(chain_idx)\n                .any(|stone| final_state_raw.get_color(stone.coord) != Some(stone.color));\n            if lost {\n                dead_chains.insert(chain_idx);\n            }")]),
    ("x_float_eye", None, [(D, "        let eyes = self.pseudo_legals().filter(|&p| {\n            self.check_eye(Stone {\n                coord: p,\n                color: Color::Black,\n            }) || self.check_eye(Stone {\n                coord: p,\n                color: Color::White,\n            })\n        });", "        let is_eye = |coord, color| self.check_eye(Stone { coord, color });\n        let eyes = self\n            .pseudo_legals()\n            .filter(|&p| is_eye(p, Color::Black) || is_eye(p, Color::White));")]),
    ("x_legals_ret", None, [(D, "        if moves.is_empty() {\n            if self.is_over() {\n                vec![]\n            } else {\n                vec![Move::Pass]\n            }\n        } else {\n            moves\n        }", "        if !moves.is_empty() || self.is_over() {\n            return moves;\n        }\n        vec![Move::Pass]")]),
    ("x_corner_fn", None, [(U, "        array_vec.retain(|x| is_coord_valid(size, *x));\n        array_vec", "        let mut kept = ArrayVec::new();\n        for c in array_vec.drain(..) {\n            if is_coord_valid(size, c) {\n                kept.push(c);\n            }\n        }\n        kept")]),
    ("x_valid_filter", None, [(U, "        let mut array_vec = ArrayVec::from(neighbor_coords((x1, x2)));\n        array_vec.retain(|x| is_coord_valid(size, *x));\n        array_vec", "        neighbor_coords((x1, x2))\n            .into_iter()\n            .filter(|&x| is_coord_valid(size, x))\n            .collect()")]),
    ("x_two_usize", None, [(U, "        (point.0 as u32 * size.1 as u32 + point.1 as u32) as usize", "        let width = size.1 as usize;\n        width * point.0 as usize + point.1 as usize")]),
    ("x_color_eq", None, [(ST, "        match self {\n            Color::Black => Color::White,\n            Color::White => Color::Black,\n        }", "        if self == Color::Black {\n            Color::White\n        } else {\n            Color::Black\n        }")]),
    ("x_size_tuple", None, [(M, "            GobanSizes::Nine => (9, 9),\n            GobanSizes::Thirteen => (13, 13),\n            GobanSizes::Nineteen => (19, 19),\n", "            GobanSizes::Nineteen => (19, 19),\n            GobanSizes::Thirteen => (13, 13),\n            GobanSizes::Nine => (9, 9),\n")]),
]
