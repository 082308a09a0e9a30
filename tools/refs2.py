"""Development tool: second batch of refactorings that keep the behaviour."""
CASES = []
def C(n, *e):
    CASES.append((n, None, list(e)))
G = "src/pieces/goban.rs"; GR = "src/pieces/group.rs"; T = "src/pieces/territory.rs"; U = "src/pieces/util.rs"; Z = "src/pieces/zobrist.rs"
GA = "src/rules/game.rs"; B = "src/rules/game_builder.rs"; S = "src/rules/sgf_bridge.rs"; D = "src/rules/dead_stones.rs"; M = "src/rules/mod.rs"; ST = "src/pieces/stones.rs"
C("r_sort_neighbors", (G, "        // For each neighbor we fill the right vector\n        for neighbor_idx in self.neighbors_idx(pushed_stone_idx) {\n            match self.board[neighbor_idx] {\n                Some(adj_ren_index) => {\n                    let adj_ren_index = adj_ren_index.get() as usize;\n                    if self.chains[adj_ren_index].color == color {\n                        if !adjacent_same_color_str_set.contains(&adj_ren_index) {\n                            adjacent_same_color_str_set.push(adj_ren_index);\n                        }\n                    } else if !adjacent_opposite_color_str_set.contains(&adj_ren_index) {\n                        adjacent_opposite_color_str_set.push(adj_ren_index);\n                    }\n                }\n                None => {\n                    liberties.push(neighbor_idx);\n                }\n            }\n        }", "        // For each neighbor we fill the right vector\n        for neighbor_idx in self.neighbors_idx(pushed_stone_idx) {\n            let Some(ren) = self.board[neighbor_idx] else {\n                liberties.push(neighbor_idx);\n                continue;\n            };\n            let ren = ren.get() as usize;\n            let set = if self.chains[ren].color == color {\n                &mut adjacent_same_color_str_set\n            } else {\n                &mut adjacent_opposite_color_str_set\n            };\n            if !set.contains(&ren) {\n                set.push(ren);\n            }\n        }"))
C("r_libs_filter", (G, "                None => {\n                    liberties.push(neighbor_idx);\n                }\n            }\n        }\n", "                None => {}\n            }\n        }\n        for neighbor_idx in self.neighbors_idx(pushed_stone_idx) {\n            if self.board[neighbor_idx].is_none() {\n                liberties.push(neighbor_idx);\n            }\n        }\n"))
C("r_dead_retain", (G, "        let mut dead_ren = ArrayVec::<BoardIdx, 4>::new();\n        // for every string of opposite color remove a liberty and update the string.\n        for ren_idx in adjacent_opposite_color_str_set {\n            let group = &mut self.chains[ren_idx];\n            group.remove_liberty(pushed_stone_idx);\n            if group.is_dead() {\n                dead_ren.push(ren_idx);\n            }\n        }", "        // for every string of opposite color remove a liberty and update the string.\n        for &ren_idx in &adjacent_opposite_color_str_set {\n            self.chains[ren_idx].remove_liberty(pushed_stone_idx);\n        }\n        let dead_ren: ArrayVec<BoardIdx, 4> = adjacent_opposite_color_str_set\n            .into_iter()\n            .filter(|&ren_idx| self.chains[ren_idx].is_dead())\n            .collect();"))
C("r_hash_first", (G, "        self.zobrist_hash ^= index_zobrist(pushed_stone_idx, color);\n        #[cfg(debug_assertions)]", "        #[cfg(debug_assertions)]"), (G, "        let pushed_stone_idx = two_to_1dim(self.size, point);\n\n        let mut adjacent_same", "        let pushed_stone_idx = two_to_1dim(self.size, point);\n        self.zobrist_hash ^= index_zobrist(pushed_stone_idx, color);\n\n        let mut adjacent_same"))
C("r_merge_swap_early", (G, "        // We merge liberties\n        merge(&mut chain1.liberties, &chain2.liberties);\n\n", ""), (G, "        chain1.num_stones += chain2.num_stones;\n", "        chain1.num_stones += chain2.num_stones;\n        // We merge liberties\n        chain1.union_liberties(chain2.liberties);\n"))
C("r_merge_min", (G, "        if chain1_origin > chain2_origin {\n            chain1.origin = chain2_origin;\n        } else {\n            chain1.last = chain2_last;\n        }", "        if chain2_origin < chain1_origin {\n            chain1.origin = chain2_origin;\n        }\n        if chain2_origin >= chain1_origin {\n            chain1.last = chain2_last;\n        }"))
C("r_add_common", (G, "        if stone < group.origin as usize {\n            // replace origin\n            self.next_stone[stone] = group.origin;\n            self.next_stone[group.last as usize] = stone as u16;\n            group.origin = stone as u16;\n        } else {\n            self.next_stone[group.last as usize] = stone as u16;\n            self.next_stone[stone] = group.origin;\n            group.last = stone as u16;\n        }", "        let id = stone as u16;\n        self.next_stone[stone] = group.origin;\n        self.next_stone[group.last as usize] = id;\n        if id < group.origin {\n            group.origin = id;\n        } else {\n            group.last = id;\n        }"))
C("r_remove_filter", (G, "            let mut neighbors_chains = self.get_connected_groups_idx(point_idx);\n            // We remove our group from the neighbors\n            neighbors_chains.retain(|x| *x != ren_to_remove_idx);\n\n            for &n in &neighbors_chains {\n                self.chains[n].add_liberty(point_idx);\n            }", "            for n in self.get_connected_groups_idx(point_idx) {\n                if n == ren_to_remove_idx {\n                    continue;\n                }\n                self.chains[n].add_liberty(point_idx);\n            }"))
C("r_remove_hash_after", (G, "            self.zobrist_hash ^= index_zobrist(point_idx, color_of_the_string);\n            self.board[point_idx] = None;\n", "            self.board[point_idx] = None;\n            self.zobrist_hash ^= index_zobrist(point_idx, color_of_the_string);\n"))
C("r_captured_helper", (G, "            match dead_chain.color {\n                Color::White => {\n                    stones_removed.0 += dead_chain.num_stones as u32;\n                }\n                Color::Black => {\n                    stones_removed.1 += dead_chain.num_stones as u32;\n                }\n            }\n            self.remove_chain(dead_ren_idx);", "            count_removed(dead_chain, &mut stones_removed);\n            self.remove_chain(dead_ren_idx);"), (G, "            match maybe_dead_chain.color {\n                Color::White => {\n                    stones_removed.0 += maybe_dead_chain.num_stones as u32;\n                }\n                Color::Black => {\n                    stones_removed.1 += maybe_dead_chain.num_stones as u32;\n                }\n            }\n            ko_point = None;", "            count_removed(maybe_dead_chain, &mut stones_removed);\n            ko_point = None;"), (G, "impl Goban {\n    /// Creates a Goban\n", "fn count_removed(chain: &Group, removed: &mut (u32, u32)) {\n    let n = u32::from(chain.num_stones);\n    if chain.color == Color::White {\n        removed.0 += n;\n    } else {\n        removed.1 += n;\n    }\n}\n\nimpl Goban {\n    /// Creates a Goban\n"))
C("r_ko_slice", (G, "        let only_one_ren_removed = dead_rens_indices.len() == 1;\n        let mut stones_removed = (0, 0);\n        let mut ko_point = None;\n", "        let mut stones_removed = (0, 0);\n        let mut ko_point = match dead_rens_indices {\n            &[only] if self.chains[only].num_stones == 1 => {\n                Some(one_to_2dim(self.size, self.chains[only].origin as usize))\n            }\n            _ => None,\n        };\n"), (G, "            // If only one stone and one group is removed then it becomes a ko point\n            if dead_chain.num_stones == 1 && only_one_ren_removed {\n                ko_point = Some(one_to_2dim(self.size(), dead_chain.origin as usize));\n            }\n", ""))
C("r_stones_fold", (G, "        let mut black_stones = 0;\n        let mut white_stones = 0;\n\n        for group in self.chains.iter() {\n            match group.color {\n                Color::White => {\n                    white_stones += group.num_stones as u32;\n                }\n                Color::Black => {\n                    black_stones += group.num_stones as u32;\n                }\n            }\n        }\n\n        (black_stones, white_stones)", "        let count = |color: Color| -> u32 {\n            self.chains\n                .iter()\n                .filter(|group| group.color == color)\n                .map(|group| group.num_stones as u32)\n                .sum()\n        };\n        (count(Color::Black), count(Color::White))"))
C("r_coords_filter", (G, "        let mut res = ArrayVec::<Coord, BOARD_MAX_LENGTH>::new();\n        for board_idx in 0..self.size.0 as usize * self.size.1 as usize {\n            match color {\n                EMPTY if self.board[board_idx].is_some() => {}\n                EMPTY => res.push(one_to_2dim(self.size, board_idx)),\n                Some(c) => self.board[board_idx]\n                    .filter(|&chain_idx| self.chains[chain_idx.get() as usize].color == c)\n                    .map(|_| res.push(one_to_2dim(self.size, board_idx)))\n                    .unwrap_or(()),\n            }\n        }\n        res.into_iter()", "        (0..self.size.0 as usize * self.size.1 as usize)\n            .filter(move |&board_idx| self.get_color(board_idx) == color)\n            .map(move |board_idx| one_to_2dim(self.size, board_idx))"))
C("r_empty_coords", (G, "        let board_length = self.size.0 as usize * self.size.1 as usize;\n        self.board[..board_length]\n            .iter()\n            .enumerate()\n            .filter_map(|x| {\n                if x.1.is_none() {\n                    Some(one2dim!(self.size, x.0))\n                } else {\n                    None\n                }\n            })", "        self.get_empty_idx().map(|idx| one_to_2dim(self.size, idx))"))
C("r_libs_any", (G, "        self.get_liberties(coord).next().is_some()", "        self.get_connected_points(coord).any(|p| p.color.is_none())"))
C("r_conn_fold", (G, "        let mut array_vec: ArrayVec<GroupIdx, 4> = ArrayVec::new_const();\n        for idx in self.neighbors_idx(index) {\n            if let Some(idx) = self.board[idx] {\n                if !array_vec.contains(&(idx.get() as usize)) {\n                    array_vec.push(idx.get() as usize);\n                }\n            }\n        }\n        array_vec", "        let mut groups = Connections::new_const();\n        for group in self\n            .neighbors_idx(index)\n            .filter_map(|neighbor| self.board[neighbor])\n            .map(|group| group.get() as GroupIdx)\n        {\n            if groups.iter().all(|&g| g != group) {\n                groups.push(group);\n            }\n        }\n        groups"))
C("r_valid_array", (U, "        let mut array_vec = ArrayVec::from(neighbor_coords((x1, x2)));\n        array_vec.retain(|x| is_coord_valid(size, *x));\n        array_vec", "        neighbor_coords((x1, x2))\n            .into_iter()\n            .filter(|&x| is_coord_valid(size, x))\n            .collect()"))
C("r_one2", (U, "        (\n            (index / size.1 as usize) as u8,\n            (index % size.1 as usize) as u8,\n        )\n    }", "        let width = size.1 as usize;\n        let line = index / width;\n        let column = index - line * width;\n        (line as u8, column as u8)\n    }"))
C("r_pseudo_flat", (GA, "        let size = self.size();\n        let mut vec = Vec::with_capacity(size.0 as usize * size.1 as usize);\n        let board = self.goban.board();\n        for i in 0..size.0 as Nat {\n            for j in 0..size.1 as Nat {\n                if board[two_to_1dim(size, (i, j))].is_none() {\n                    vec.push((i, j));\n                }\n            }\n        }\n        vec", "        self.pseudo_legals().collect()"), (GA, "use crate::pieces::util::coord::{corner_points, is_coord_valid, two_to_1dim, Coord, Size};", "use crate::pieces::util::coord::{corner_points, is_coord_valid, Coord, Size};"))
C("r_outcome_match", (GA, "        if !self.is_over() {\n            None\n        } else if self.outcome.is_some() {\n            self.outcome\n        } else {\n            // two passes", "        if let Some(outcome) = self.outcome {\n            Some(outcome)\n        } else if self.passes < 2 {\n            None\n        } else {\n            // two passes"))
C("r_over_or", (GA, "        if self.outcome.is_some() {\n            true\n        } else {\n            self.passes >= 2\n        }", "        self.passes >= 2 || self.outcome.is_some()"))
C("r_play_split", (GA, "            Move::Play(x, y) => {\n                //let hash = self.goban.zobrist_hash();\n                self.history.insert(self.goban.clone());\n                let (dead_rens, added_ren) = self.goban.push_wth_feedback((x, y), self.turn);\n                self.ko_point = None;\n                self.remove_captured_stones(&dead_rens, added_ren);\n                //self.prisoners = self.remove_captured_stones();\n                self.turn = !self.turn;\n                self.passes = 0;\n                self\n            }", "            Move::Play(x, y) => self.place((x, y)),"), (GA, "    /// Plays a move then return the simulated goban,", "    fn place(&mut self, coord: Coord) -> &mut Self {\n        let color = self.turn;\n        self.passes = 0;\n        self.turn = !color;\n        self.ko_point = None;\n        self.history.insert(self.goban.clone());\n        let (dead_rens, added_ren) = self.goban.push_wth_feedback(coord, color);\n        self.remove_captured_stones(&dead_rens, added_ren);\n        self\n    }\n\n    /// Plays a move then return the simulated goban,"))
C("r_try_early", (GA, "        if self.passes == 2 {\n            Err(PlayError::GamePaused)\n        } else {\n            match play {\n                Move::Play(x, y) => {\n                    if self.goban.get_color((x, y)) != EMPTY {\n                        Err(PlayError::PointNotEmpty)\n                    } else if let Some(c) = self.check_point((x as Nat, y as Nat)) {\n                        Err(c)\n                    } else {\n                        Ok(self.play(play))\n                    }\n                }\n                Move::Pass | Move::Resign(_) => Ok(self.play(play)),\n            }\n        }", "        if self.passes == 2 {\n            return Err(PlayError::GamePaused);\n        }\n        if let Move::Play(x, y) = play {\n            if let Some(error) = self.check_point((x, y)) {\n                return Err(error);\n            }\n        }\n        Ok(self.play(play))"), (GA, "use crate::pieces::stones::{Color, Stone, EMPTY};", "use crate::pieces::stones::{Color, Stone};"))
C("r_check_collect", (GA, "        if self.goban.get_color(coord).is_some() {\n            Some(PlayError::PointNotEmpty)\n        } else if illegal_rules.contains(IllegalRules::SUICIDE) && self.check_suicide(stone) {\n            Some(PlayError::Suicide)\n        } else if illegal_rules.contains(IllegalRules::KO) && self.check_ko(stone) {\n            Some(PlayError::Ko)\n        } else if", "        if self.goban.get_color(coord).is_some() {\n            return Some(PlayError::PointNotEmpty);\n        }\n        if illegal_rules.contains(IllegalRules::SUICIDE) && self.check_suicide(stone) {\n            return Some(PlayError::Suicide);\n        }\n        if illegal_rules.contains(IllegalRules::KO) && self.check_ko(stone) {\n            return Some(PlayError::Ko);\n        }\n        if"))
C("r_ko_and", (GA, "        self.ko_point == Some(stone.coord)\n            && !self\n                .goban\n                .get_connected_groups(stone.coord)\n                .into_iter()\n                .any(|neighbor_go_string| {\n                    neighbor_go_string.is_atari() && neighbor_go_string.num_stones > 1\n                })", "        if self.ko_point != Some(stone.coord) {\n            return false;\n        }\n        for neighbor in self.goban.get_connected_groups(stone.coord) {\n            if neighbor.num_stones >= 2 && neighbor.is_atari() {\n                return false;\n            }\n        }\n        true"))
C("r_suicide_loop", (GA, "        if self.goban.has_liberties(stone.coord) {\n            false\n        } else {\n            !self\n                .goban\n                .get_connected_groups(stone.coord)\n                .into_iter()\n                .any(|neighbor_go_string| {\n                    if neighbor_go_string.color == stone.color {\n                        // Connecting with another string which is not in danger\n                        !neighbor_go_string.is_atari()\n                    } else {\n                        // Capture move\n                        neighbor_go_string.is_atari()\n                    }\n                })\n        }", "        !self.goban.has_liberties(stone.coord)\n            && self\n                .goban\n                .get_connected_groups(stone.coord)\n                .iter()\n                .all(|neighbor| neighbor.is_atari() == (neighbor.color == stone.color))"))
C("r_superko_lazy", (GA, "        let to_check = self.play_for_verification(stone.coord);\n        let is_it_ko = self.check_ko(stone);\n        is_it_ko || to_check == self.goban || self.history.contains(&to_check)", "        if self.check_ko(stone) {\n            return true;\n        }\n        let to_check = self.play_for_verification(stone.coord);\n        self.history.contains(&to_check) || to_check == self.goban"))
C("r_eye_early", (GA, "        let total_corners = corner_ally.len() + corner_off_board.len();\n\n        if total_corners == 4 {\n            return true;\n        }\n", "        let total_corners = corner_ally.len() + corner_off_board.len();\n\n        match total_corners {\n            4 => return true,\n            0 | 1 => return false,\n            _ => {}\n        }\n"))
C("r_score_tuple", (GA, "        let (black_score, white_score) = self.goban.calculate_territories();\n        let mut black_score = black_score as f32;\n        let mut white_score = white_score as f32;\n        if rule.contains(ScoreRules::PRISONNERS) {", "        let territories = self.goban.calculate_territories();\n        let (mut black_score, mut white_score) = (territories.0 as f32, territories.1 as f32);\n        if rule.contains(ScoreRules::PRISONNERS) {"))
C("r_terr_match", (T, "            if neutral.0 && !neutral.1 {\n                black_territory.extend(empty_group.into_iter())\n            } else if !neutral.0 && neutral.1 {\n                white_territory.extend(empty_group.into_iter())\n            }", "            match neutral {\n                (true, false) => black_territory.extend(empty_group),\n                (false, true) => white_territory.extend(empty_group),\n                _ => {}\n            }"))
C("r_terr_colors", (T, "                    if point.color == Some(Color::White) {\n                        neutral.1 = true; // found white stone\n                    }\n                    if point.color == Some(Color::Black) {\n                        neutral.0 = true; // found black stone\n                    }", "                    match point.color {\n                        Some(Color::White) => neutral.1 = true,\n                        Some(Color::Black) => neutral.0 = true,\n                        EMPTY => {}\n                    }"))
C("r_chains_all", (T, "            let is_handled = groups_of_stones.iter().any(|set| set.contains(&s));\n\n            if !is_handled {\n                groups_of_stones.push(self.get_group_from_point(s))\n            }", "            if groups_of_stones.iter().all(|set| !set.contains(&s)) {\n                let group = self.get_group_from_point(s);\n                groups_of_stones.push(group);\n            }"))
C("r_group_for", (T, "            to_explore.extend(\n                self.get_connected_points(stone_to_explore.coord)\n                    .filter(|p| p.color == stone.color && !explored.contains(p)),\n            )", "            for neighbor in self.get_connected_points(stone_to_explore.coord) {\n                if neighbor.color == stone.color && !explored.contains(&neighbor) {\n                    to_explore.push(neighbor);\n                }\n            }"))
C("r_build_while", (B, "        for &m in &self.moves {\n            match m {\n                Move::Play(x, y) => check_free_point(&g.goban, (x, y))?,\n                Move::Pass if g.passes >= 2 => return Err(\"Pass in a paused game\".to_string()),\n                _ => {}\n            }\n            g.play(m);\n        }\n\n        Ok(g)", "        for m in self.moves.iter().copied() {\n            if let Move::Play(x, y) = m {\n                check_free_point(&g.goban, (x, y))?;\n            } else if m == Move::Pass && g.passes >= 2 {\n                return Err(\"Pass in a paused game\".to_string());\n            }\n            g.play(m);\n        }\n        Ok(g)"))
C("r_build_turn", (B, "        let turn = {\n            self.turn.unwrap_or(if handicap != 0 {\n                Color::White\n            } else {\n                Color::Black\n            })\n        };", "        let turn = match self.turn {\n            Some(color) => color,\n            None if handicap > 0 => Color::White,\n            None => Color::Black,\n        };"))
C("r_sgf_helper", (S, "                        SgfToken::Size(x, y) => {\n                            if *x > 19 || *y > 19 {\n                                return Err(format!(\"The size {x}:{y} is not supported.\"));\n                            }\n                            // SGF gives the number of columns first\n                            game_builder.size((*y as u8, *x as u8));\n                        }", "                        SgfToken::Size(columns, lines) => {\n                            let largest = *columns.max(lines);\n                            if largest > 19 {\n                                return Err(format!(\"The size {columns}:{lines} is not supported.\"));\n                            }\n                            game_builder.size((*lines as u8, *columns as u8));\n                        }"))
C("r_sgf_iflet", (S, "                if let SgfToken::Move { action, color } = token {\n                    first_player.get_or_insert((*color).into());\n                    moves.push((*action).into());\n                }", "                if let SgfToken::Move { action, color } = token {\n                    moves.push(Move::from(*action));\n                    if first_player.is_none() {\n                        first_player = Some(Color::from(*color));\n                    }\n                }"))
C("r_dead_any", (D, "        for &chain_idx in &floating_stones {\n            for stone in self.chain_stones(chain_idx) {\n                // If some stones of the string aren't in the final goban then it's plausible that\n                // this string is dead.\n                if final_state_raw.get_color(stone.coord) != Some(stone.color) {\n                    dead_chains.insert(chain_idx);\n                    break;\n                }\n            }\n        }", "        for chain_idx in floating_stones {\n            // If some stones of the string aren't in the final goban then it's plausible that\n            // this string is dead.\n            if self\n                .chain_stones(chain_idx)\n                .any(|stone| final_state_raw.get_color(stone.coord) != Some(stone.color))\n            {\n                dead_chains.insert(chain_idx);\n            }\n        }"))
C("r_dead_legal", (D, "        if moves.is_empty() {\n            if self.is_over() {\n                vec![]\n            } else {\n                vec![Move::Pass]\n            }\n        } else {\n            moves\n        }", "        if moves.is_empty() && !self.is_over() {\n            return vec![Move::Pass];\n        }\n        moves"))
C("r_handi_for", (GA, "        self.handicap = points.len() as u32;\n        points.iter().for_each(|&coord| {\n            self.goban.push(coord, Color::Black);\n        });\n        self.turn = Color::White;", "        for &coord in points {\n            self.goban.push(coord, Color::Black);\n        }\n        self.turn = Color::White;\n        self.handicap = points.len() as u32;"))
C("r_set_match", (GR, "    let mask = 1 << bit_index;\n    if VAL {\n        lib[chunk] |= mask;\n    } else {\n        lib[chunk] &= !mask;\n    }", "    let mask = 1 << bit_index;\n    let old = lib[chunk];\n    lib[chunk] = match VAL {\n        true => old | mask,\n        false => old & !mask,\n    };"))
C("r_put_match", (GR, "        self.0.push(Some(group));\n        self.0.len() - 1", "        let slot = self.0.len();\n        self.0.push(Some(group));\n        slot"))
C("r_iter_loop", (GR, "            let zeros = chunk.trailing_zeros();\n            index += zeros as usize + 1;\n            ixs.push(index - 1 + BITS * ix);\n            chunk = chunk.checked_shr(zeros + 1).unwrap_or(0);", "            let bit = chunk.trailing_zeros() as usize;\n            index += bit + 1;\n            ixs.push(BITS * ix + index - 1);\n            chunk = if bit + 1 < BITS { chunk >> (bit + 1) } else { 0 };"))
