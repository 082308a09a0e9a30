"""Fifth set of behaviour-preserving edits: larger restructurings."""
G = "src/pieces/goban.rs"
GR = "src/pieces/group.rs"
U = "src/pieces/util.rs"
T = "src/pieces/territory.rs"
GA = "src/rules/game.rs"
B = "src/rules/game_builder.rs"
M = "src/rules/mod.rs"
S = "src/rules/sgf_bridge.rs"
D = "src/rules/dead_stones.rs"
CASES = [
    ("y_end_turn", None, [(GA, "                self.turn = !self.turn;\n                self.ko_point = None;\n                self.passes += 1;\n                self", "                self.passes += 1;\n                self.ko_point = None;\n                self.next_player()"),
                          (GA, "                self.turn = !self.turn;\n                self.passes = 0;\n                self\n", "                self.passes = 0;\n                self.next_player()\n"),
                          (GA, "    /// Method to play on the goban or pass.\n", "    fn next_player(&mut self) -> &mut Self {\n        self.turn = !self.turn;\n        self\n    }\n\n    /// Method to play on the goban or pass.\n")]),
    ("y_play_early", None, [(GA, "                self.history.insert(self.goban.clone());\n                let (dead_rens, added_ren) = self.goban.push_wth_feedback((x, y), self.turn);\n                self.ko_point = None;\n                self.remove_captured_stones(&dead_rens, added_ren);", "                let player = self.turn;\n                let before = self.goban.clone();\n                self.history.insert(before);\n                self.ko_point = None;\n                self.passes = 0;\n                let (dead, own) = self.goban.push_wth_feedback((x, y), player);\n                self.remove_captured_stones(&dead, own);")]),
    ("y_suicide_helper", None, [(GA, "            !self.rule.flag_illegal.contains(IllegalRules::SUICIDE),\n            &dead_go_strings,", "            self.suicide_allowed(),\n            &dead_go_strings,"),
                                (GA, "    /// Plays a move then return the simulated goban,\n", "    fn suicide_allowed(&self) -> bool {\n        !self.rule.flag_illegal.intersects(IllegalRules::SUICIDE)\n    }\n\n    /// Plays a move then return the simulated goban,\n")]),
    ("y_try_let", None, [(GA, "        if self.passes == 2 {\n            Err(PlayError::GamePaused)\n        } else {\n            match play {\n                Move::Play(x, y) => {\n                    if self.goban.get_color((x, y)) != EMPTY {\n                        Err(PlayError::PointNotEmpty)\n                    } else if let Some(c) = self.check_point((x as Nat, y as Nat)) {\n                        Err(c)\n                    } else {\n                        Ok(self.play(play))\n                    }\n                }\n                Move::Pass | Move::Resign(_) => Ok(self.play(play)),\n            }\n        }", "        if self.passes == 2 {\n            return Err(PlayError::GamePaused);\n        }\n        let Move::Play(x, y) = play else {\n            return Ok(self.play(play));\n        };\n        if self.goban.get_color((x, y)) != EMPTY {\n            return Err(PlayError::PointNotEmpty);\n        }\n        match self.check_point((x, y)) {\n            Some(e) => Err(e),\n            None => Ok(self.play(play)),\n        }")]),
    ("y_score_komi", None, [(GA, "        if rule.contains(ScoreRules::KOMI) {\n            white_score += self.komi();\n        }\n\n        (black_score, white_score)", "        let komi = if rule.contains(ScoreRules::KOMI) { self.komi() } else { 0.0 };\n\n        (black_score, white_score + komi)")]),
    ("y_score_int", None, [(GA, "        let (black_score, white_score) = self.goban.calculate_territories();\n        let mut black_score = black_score as f32;\n        let mut white_score = white_score as f32;\n", "        let (b, w) = self.goban.calculate_territories();\n        let (mut black_score, mut white_score) = (b as f32, w as f32);\n        let stones = self.goban.number_of_stones();\n"),
                           (GA, "            let (black_stones, white_stones) = self.goban.number_of_stones();\n            black_score += black_stones as f32;\n            white_score += white_stones as f32;", "            black_score += stones.0 as f32;\n            white_score += stones.1 as f32;")]),
    ("y_capture_turn", None, [(GA, ".any(|go_str| go_str.color != self.turn && go_str.is_atari())", ".any(|go_str| go_str.is_atari() && go_str.color == !self.turn)")]),
    ("y_check_swapped", None, [(GA, "illegal_rules.contains(IllegalRules::SUICIDE) && self.check_suicide(stone)", "self.check_suicide(stone) && illegal_rules.contains(IllegalRules::SUICIDE)")]),
    ("y_check_vec", None, [(GA, "        } else if illegal_rules.contains(IllegalRules::FILLEYE) && self.check_eye(stone) {\n            Some(PlayError::FillEye)\n        } else if illegal_rules.contains(IllegalRules::SUPERKO) && self.check_super_ko(stone) {\n            Some(PlayError::Ko)\n        } else {\n            None\n        }", "        } else {\n            self.check_rest(stone, illegal_rules)\n        }"),
                           (GA, "    /// Return the number of allied corner and off board corners.\n", "    fn check_rest(&self, stone: Stone, rules: IllegalRules) -> Option<PlayError> {\n        if rules.contains(IllegalRules::FILLEYE) && self.check_eye(stone) {\n            return Some(PlayError::FillEye);\n        }\n        if rules.contains(IllegalRules::SUPERKO) && self.check_super_ko(stone) {\n            return Some(PlayError::Ko);\n        }\n        None\n    }\n\n    /// Return the number of allied corner and off board corners.\n")]),
    ("y_eye_match", None, [(GA, "        if total_corners == 4 {\n            return true;\n        }\n", "        match total_corners {\n            4 => return true,\n            2 | 3 => {}\n            _ => return false,\n        }\n"), (GA, "        if [3, 2].contains(&total_corners) {\n            for coord in empty_corners {", "        {\n            for coord in empty_corners {")]),
    ("y_eye_helper", None, [(GA, "                if self\n                    .goban\n                    .get_connected_stones(coord)\n                    .any(move |s| s.color != color)\n                {\n                    return false;\n                }\n", "                if !self.only_neighbors(coord, color) {\n                    return false;\n                }\n"),
                            (GA, "    /// Detects true eyes. return true is the stone is an eye.\n", "    fn only_neighbors(&self, coord: Coord, color: Color) -> bool {\n        self.goban.get_connected_stones(coord).all(|s| s.color == color)\n    }\n\n    /// Detects true eyes. return true is the stone is an eye.\n")]),
    ("y_ko_some", None, [(GA, "        self.ko_point == Some(stone.coord)\n            && !self\n                .goban\n                .get_connected_groups(stone.coord)\n                .into_iter()\n                .any(|neighbor_go_string| {\n                    neighbor_go_string.is_atari() && neighbor_go_string.num_stones > 1\n                })", "        let Some(point) = self.ko_point else {\n            return false;\n        };\n        point == stone.coord\n            && self\n                .goban\n                .get_connected_groups(point)\n                .into_iter()\n                .all(|g| g.num_stones <= 1 || !g.is_atari())")]),
    ("y_handi_many", None, [(GA, "        self.handicap = points.len() as u32;\n        points.iter().for_each(|&coord| {\n            self.goban.push(coord, Color::Black);\n        });\n        self.turn = Color::White;", "        self.turn = Color::White;\n        self.goban.push_many(points, Color::Black);\n        self.handicap = points.len() as u32;")]),
    ("y_outcome_diff", None, [(GA, "            let scores = self.calculate_score();\n            if (scores.0 - scores.1).abs() < f32::EPSILON {\n                Some(Draw)\n            } else if scores.0 > scores.1 {\n                Some(WinnerByScore(Black, scores.0 - scores.1))\n            } else {\n                Some(WinnerByScore(White, scores.1 - scores.0))\n            }", "            let (black, white) = self.calculate_score();\n            let lead = black - white;\n            Some(if lead.abs() < f32::EPSILON {\n                Draw\n            } else if black > white {\n                WinnerByScore(Black, lead)\n            } else {\n                WinnerByScore(White, white - black)\n            })")]),
    ("y_build_place", None, [(B, "        for point in self.handicap_points {\n            check_free_point(&goban, point)?;\n            goban.push(point, Color::Black);\n        }\n\n        // Setup\n        for s in self.setup {\n            check_free_point(&goban, s.coord)?;\n            goban.push_stone(s);\n        }\n", "        for point in self.handicap_points {\n            place(&mut goban, Stone { coord: point, color: Color::Black })?;\n        }\n\n        // Setup\n        for s in self.setup {\n            place(&mut goban, s)?;\n        }\n"),
                             (B, "fn check_free_point(goban", "fn place(goban: &mut Goban, stone: Stone) -> Result<(), String> {\n    check_free_point(goban, stone.coord)?;\n    goban.push_stone(stone);\n    Ok(())\n}\n\nfn check_free_point(goban")]),
    ("y_build_turn", None, [(B, "        let turn = {\n            self.turn.unwrap_or(if handicap != 0 {\n                Color::White\n            } else {\n                Color::Black\n            })\n        };\n", "        let turn = match self.turn {\n            Some(color) => color,\n            None if handicap > 0 => Color::White,\n            None => Color::Black,\n        };\n")]),
    ("y_build_komi", None, [(B, "        if let Some(komi) = self.komi {\n            self.rule.komi = komi;\n        }\n", "        self.rule.komi = self.komi.unwrap_or(self.rule.komi);\n")]),
    ("y_build_free", None, [(B, "    if !is_coord_valid(goban.size(), point) {\n        Err(format!(\"The point {point:?} is outside the board\"))\n    } else if goban.get_color(point).is_some() {\n        Err(format!(\"The point {point:?} is not empty\"))\n    } else {\n        Ok(())\n    }", "    if !is_coord_valid(goban.size(), point) {\n        return Err(format!(\"The point {point:?} is outside the board\"));\n    }\n    match goban.get_color(point) {\n        None => Ok(()),\n        Some(_) => Err(format!(\"The point {point:?} is not empty\")),\n    }")]),
    ("y_sgf_size", None, [(S, "                            if *x > 19 || *y > 19 {\n                                return Err(format!(\"The size {x}:{y} is not supported.\"));\n                            }", "                            if !(*x <= 19 && *y <= 19) {\n                                return Err(format!(\"The size {x}:{y} is not supported.\"));\n                            }")]),
    ("y_sgf_first", None, [(S, "                    first_player.get_or_insert((*color).into());\n", "                    if first_player.is_none() {\n                        first_player = Some((*color).into());\n                    }\n")]),
    ("y_sgf_turn", None, [(S, "        if let Some(player) = first_player {\n            game_builder.turn(player);\n        }\n        game_builder.moves(&moves);\n        game_builder.build()", "        game_builder.moves(&moves);\n        if let Some(player) = first_player {\n            game_builder.turn(player);\n        }\n        game_builder.build()")]),
    ("y_sgf_rule", None, [(S, "                            if !matches!(rule, RuleSet::Japanese | RuleSet::Chinese) {\n                                return Err(format!(\"The rule {} is not implemented yet.\", rule.to_string()));\n                            }\n                            game_builder.rule(rule.clone().into());", "                            match rule {\n                                RuleSet::Japanese | RuleSet::Chinese => {\n                                    game_builder.rule(rule.clone().into());\n                                }\n                                other => {\n                                    return Err(format!(\"The rule {} is not implemented yet.\", other.to_string()));\n                                }\n                            }")]),
    ("y_terr_flags", None, [(T, "            let mut neutral = (false, false);\n", "            let (mut seen_black, mut seen_white) = (false, false);\n"),
                            (T, "                    if point.color == Some(Color::White) {\n                        neutral.1 = true; // found white stone\n                    }\n                    if point.color == Some(Color::Black) {\n                        neutral.0 = true; // found black stone\n                    }\n                    if neutral.0 && neutral.1 {", "                    match point.color {\n                        Some(Color::White) => seen_white = true,\n                        Some(Color::Black) => seen_black = true,\n                        None => {}\n                    }\n                    if seen_black && seen_white {"),
                            (T, "            if neutral.0 && !neutral.1 {\n                black_territory.extend(empty_group.into_iter())\n            } else if !neutral.0 && neutral.1 {\n                white_territory.extend(empty_group.into_iter())\n            }", "            if seen_black {\n                black_territory.extend(empty_group.into_iter())\n            } else if seen_white {\n                white_territory.extend(empty_group.into_iter())\n            }")]),
    ("y_terr_any", None, [(T, "                    if neutral.0 && neutral.1 {\n                        // if the territory is surrounded by two colors then pass\n                        continue 'outer;\n                    }\n", ""), (T, "        'outer: for empty_group", "        for empty_group")]),
    ("y_chains_find", None, [(T, "            let is_handled = groups_of_stones.iter().any(|set| set.contains(&s));\n\n            if !is_handled {\n                groups_of_stones.push(self.get_group_from_point(s))\n            }", "            if groups_of_stones.iter().all(|set| !set.contains(&s)) {\n                let group = self.get_group_from_point(s);\n                groups_of_stones.push(group);\n            }")]),
    ("y_float_more", None, [(D, ".filter(|(_, v)| *v >= 2)\n            .map(|x| x.0)", ".filter_map(|(idx, count)| if count > 1 { Some(idx) } else { None })")]),
    ("y_float_eyes", None, [(D, "            self.check_eye(Stone {\n                coord: p,\n                color: Color::Black,\n            }) || self.check_eye(Stone {\n                coord: p,\n                color: Color::White,\n            })", "            [Color::Black, Color::White]\n                .iter()\n                .any(|&color| self.check_eye(Stone { coord: p, color }))")]),
    ("y_dead_any", None, [(D, "            for stone in self.chain_stones(chain_idx) {\n                // If some stones of the string aren't in the final goban then it's plausible that\n                // this string is dead.\n                if final_state_raw.get_color(stone.coord) != Some(stone.color) {\n                    dead_chains.insert(chain_idx);\n                    break;\n                }\n            }", "            let captured = self\n                .chain_stones(chain_idx)\n                .any(|stone| final_state_raw.get_color(stone.coord) != Some(stone.color));\n            if captured {\n                dead_chains.insert(chain_idx);\n            }")]),
    ("y_two_usize", None, [(U, "(point.0 as u32 * size.1 as u32 + point.1 as u32) as usize", "point.1 as usize + point.0 as usize * size.1 as usize")]),
    ("y_two_u16", None, [(U, "(point.0 as u32 * size.1 as u32 + point.1 as u32) as usize", "(point.0 as u16 * size.1 as u16 + point.1 as u16) as usize")]),
    ("y_stones_u64", None, [(G, "        let mut black_stones = 0;\n        let mut white_stones = 0;", "        let mut black_stones = 0u32;\n        let mut white_stones = 0u32;")]),
    ("y_superko_match", None, [(GA, "        let to_check = self.play_for_verification(stone.coord);\n        let is_it_ko = self.check_ko(stone);\n        is_it_ko || to_check == self.goban || self.history.contains(&to_check)", "        self.check_ko(stone) || {\n            let next = self.play_for_verification(stone.coord);\n            self.history.contains(&next) || self.goban == next\n        }")]),
    ("y_suicide_fold", None, [(GA, "                .any(|neighbor_go_string| {\n                    if neighbor_go_string.color == stone.color {\n                        // Connecting with another string which is not in danger\n                        !neighbor_go_string.is_atari()\n                    } else {\n                        // Capture move\n                        neighbor_go_string.is_atari()\n                    }\n                })", "                .any(|g| (g.color == stone.color) != g.is_atari())")]),
]
