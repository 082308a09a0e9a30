from bugs import G, GR, U, T, ST, GA, B, M, S, D
CASES = []


def C(name, *edits):
    CASES.append((name, None, list(edits)))


C("over_expr", (GA, "        if self.outcome.is_some() {\n            true\n        } else {\n            self.passes >= 2\n        }", "        self.outcome.is_some() || self.passes >= 2"))
C("outcome_match", (GA, "        if !self.is_over() {\n            None\n        } else if self.outcome.is_some() {\n            self.outcome\n        } else {", "        if let Some(o) = self.outcome {\n            return Some(o);\n        }\n        if self.passes < 2 {\n            return None;\n        }\n        {"))
C("pseudo_iter", (GA, "        let mut vec = Vec::with_capacity(size.0 as usize * size.1 as usize);\n        let board = self.goban.board();\n        for i in 0..size.0 as Nat {\n            for j in 0..size.1 as Nat {\n                if board[two_to_1dim(size, (i, j))].is_none() {\n                    vec.push((i, j));\n                }\n            }\n        }\n        vec", "        let board = self.goban.board();\n        (0..size.0 as Nat)\n            .flat_map(|i| (0..size.1 as Nat).map(move |j| (i, j)))\n            .filter(|&p| board[two_to_1dim(size, p)].is_none())\n            .collect()"))
C("play_helpers", (GA, "            Move::Play(x, y) => {\n                //let hash = self.goban.zobrist_hash();\n                self.history.insert(self.goban.clone());\n                let (dead_rens, added_ren) = self.goban.push_wth_feedback((x, y), self.turn);\n                self.ko_point = None;\n                self.remove_captured_stones(&dead_rens, added_ren);\n                //self.prisoners = self.remove_captured_stones();\n                self.turn = !self.turn;\n                self.passes = 0;\n                self\n            }", "            Move::Play(x, y) => {\n                self.place((x, y));\n                self.end_turn(0)\n            }"),
  (GA, "    /// Plays a move then return the simulated goban,", "    fn place(&mut self, point: Coord) {\n        let before = self.goban.clone();\n        self.history.insert(before);\n        let (dead, added) = self.goban.push_wth_feedback(point, self.turn);\n        self.remove_captured_stones(&dead, added);\n    }\n\n    fn end_turn(&mut self, passes: u32) -> &mut Self {\n        self.passes = passes;\n        self.turn = !self.turn;\n        self\n    }\n\n    /// Plays a move then return the simulated goban,"))
C("play_reorder", (GA, "                self.turn = !self.turn;\n                self.passes = 0;\n                self", "                self.passes = 0;\n                self.turn = !self.turn;\n                self"), (GA, "                self.turn = !self.turn;\n                self.ko_point = None;\n                self.passes += 1;", "                self.passes += 1;\n                self.ko_point = None;\n                self.turn = !self.turn;"))
C("try_early", (GA, "        if self.passes == 2 {\n            Err(PlayError::GamePaused)\n        } else {\n            match play {\n                Move::Play(x, y) => {\n                    if self.goban.get_color((x, y)) != EMPTY {\n                        Err(PlayError::PointNotEmpty)\n                    } else if let Some(c) = self.check_point((x as Nat, y as Nat)) {\n                        Err(c)\n                    } else {\n                        Ok(self.play(play))\n                    }\n                }\n                Move::Pass | Move::Resign(_) => Ok(self.play(play)),\n            }\n        }", "        if self.passes == 2 {\n            return Err(PlayError::GamePaused);\n        }\n        if let Move::Play(x, y) = play {\n            if let Some(e) = self.check_point((x, y)) {\n                return Err(e);\n            }\n        }\n        Ok(self.play(play))"), (GA, "use crate::pieces::stones::{Color, Stone, EMPTY};", "use crate::pieces::stones::{Color, Stone};"))
C("handi_for", (GA, "        self.handicap = points.len() as u32;\n        points.iter().for_each(|&coord| {\n            self.goban.push(coord, Color::Black);\n        });\n        self.turn = Color::White;", "        self.turn = Color::White;\n        for point in points {\n            self.goban.push(*point, Black);\n        }\n        self.handicap = points.len() as u32;"))
C("score_vars", (GA, "        let mut black_score = black_score as f32;\n        let mut white_score = white_score as f32;\n        if rule.contains(ScoreRules::PRISONNERS) {\n            black_score += self.prisoners.0 as f32;\n            white_score += self.prisoners.1 as f32;\n        }", "        let (mut black_score, mut white_score) = (black_score as f32, white_score as f32);\n        let with_prisoners = rule.contains(ScoreRules::PRISONNERS);\n        if with_prisoners {\n            let (b, w) = self.prisoners;\n            white_score += w as f32;\n            black_score += b as f32;\n        }"))
C("check_match", (GA, "        if self.goban.get_color(coord).is_some() {\n            Some(PlayError::PointNotEmpty)\n        } else if illegal_rules.contains(IllegalRules::SUICIDE) && self.check_suicide(stone) {\n            Some(PlayError::Suicide)\n        } else if illegal_rules.contains(IllegalRules::KO) && self.check_ko(stone) {\n            Some(PlayError::Ko)\n        } else if illegal_rules.contains(IllegalRules::FILLEYE) && self.check_eye(stone) {\n            Some(PlayError::FillEye)\n        } else if illegal_rules.contains(IllegalRules::SUPERKO) && self.check_super_ko(stone) {\n            Some(PlayError::Ko)\n        } else {\n            None\n        }", "        let on = |f: IllegalRules| illegal_rules.contains(f);\n        if self.goban.get_color(coord).is_some() {\n            return Some(PlayError::PointNotEmpty);\n        }\n        if on(IllegalRules::SUICIDE) && self.check_suicide(stone) {\n            return Some(PlayError::Suicide);\n        }\n        if on(IllegalRules::KO) && self.check_ko(stone) {\n            return Some(PlayError::Ko);\n        }\n        if on(IllegalRules::FILLEYE) && self.check_eye(stone) {\n            return Some(PlayError::FillEye);\n        }\n        (on(IllegalRules::SUPERKO) && self.check_super_ko(stone)).then_some(PlayError::Ko)"))
C("suicide_all", (GA, "        if self.goban.has_liberties(stone.coord) {\n            false\n        } else {\n            !self\n                .goban\n                .get_connected_groups(stone.coord)\n                .into_iter()\n                .any(|neighbor_go_string| {\n                    if neighbor_go_string.color == stone.color {\n                        // Connecting with another string which is not in danger\n                        !neighbor_go_string.is_atari()\n                    } else {\n                        // Capture move\n                        neighbor_go_string.is_atari()\n                    }\n                })\n        }", "        if self.goban.has_liberties(stone.coord) {\n            return false;\n        }\n        for chain in self.goban.get_connected_groups(stone.coord) {\n            let ally = chain.color == stone.color;\n            if ally != chain.is_atari() {\n                return false;\n            }\n        }\n        true"))
C("suicide_demorgan", (GA, "            !self\n                .goban\n                .get_connected_groups(stone.coord)\n                .into_iter()\n                .any(|neighbor_go_string| {\n                    if neighbor_go_string.color == stone.color {\n                        // Connecting with another string which is not in danger\n                        !neighbor_go_string.is_atari()\n                    } else {\n                        // Capture move\n                        neighbor_go_string.is_atari()\n                    }\n                })", "            self.goban\n                .get_connected_groups(stone.coord)\n                .into_iter()\n                .all(|g| {\n                    if g.color == stone.color {\n                        g.is_atari()\n                    } else {\n                        !g.is_atari()\n                    }\n                })"))
C("ko_early", (GA, "        self.ko_point == Some(stone.coord)\n            && !self\n                .goban\n                .get_connected_groups(stone.coord)\n                .into_iter()\n                .any(|neighbor_go_string| {\n                    neighbor_go_string.is_atari() && neighbor_go_string.num_stones > 1\n                })", "        if self.ko_point != Some(stone.coord) {\n            return false;\n        }\n        let mut big = false;\n        for g in self.goban.get_connected_groups(stone.coord) {\n            if g.num_stones >= 2 && g.is_atari() {\n                big = true;\n            }\n        }\n        !big"))
C("superko_order", (GA, "        let to_check = self.play_for_verification(stone.coord);\n        let is_it_ko = self.check_ko(stone);\n        is_it_ko || to_check == self.goban || self.history.contains(&to_check)", "        if self.check_ko(stone) {\n            return true;\n        }\n        let next = self.play_for_verification(stone.coord);\n        self.history.contains(&next) || next == self.goban"))
C("eye_all", (GA, "        if self\n            .goban\n            .get_connected_points(coord)\n            .any(|s| s.color != Some(color))\n        {\n            return false;\n        }\n\n        let (corner_ally", "        let cross = self\n            .goban\n            .get_connected_points(coord)\n            .all(|s| s.color == Some(color));\n        if !cross {\n            return false;\n        }\n\n        let (corner_ally"))
C("eye_match", (GA, "        if total_corners == 4 {\n            return true;\n        }\n", "        if total_corners >= 4 {\n            return true;\n        }\n"), (GA, "if [3, 2].contains(&total_corners) {", "if total_corners == 2 || total_corners == 3 {"))
C("eye_counts", (GA, "                let (ca, cof, _emc) = self.helper_check_eye(coord, color);\n                let c = ca.len() + cof.len();\n                if c == 3 || c == 2 {", "                let (allied, outside, _) = self.helper_check_eye(coord, color);\n                if matches!(allied.len() + outside.len(), 2 | 3) {"))
C("helper_if", (GA, "                match color_corner {\n                    None => {\n                        empty_corners.push(p);\n                    }\n                    Some(c) if c == color => {\n                        corner_ally.push(p);\n                    }\n                    _ => {}\n                }", "                if color_corner.is_none() {\n                    empty_corners.push(p);\n                } else if color_corner == Some(color) {\n                    corner_ally.push(p);\n                }"))
C("capture_helper", (GA, "            .any(|go_str| go_str.color != self.turn && go_str.is_atari())", "            .filter(|g| g.color == !self.turn)\n            .any(|g| g.number_of_liberties() == 1)"))
C("sim_helper", (GA, "        test_goban.remove_captured_stones_aux(\n            !self.rule.flag_illegal.contains(IllegalRules::SUICIDE),\n            &dead_go_strings,\n            added_ren,\n        );", "        test_goban.remove_captured_stones_aux(self.suicide_allowed(), &dead_go_strings, added_ren);"), (GA, "        let ((black_prisoners, white_prisoners), ko_point) = self.goban.remove_captured_stones_aux(\n            !self.rule.flag_illegal.contains(IllegalRules::SUICIDE),\n            dead_chains,\n            added_chain,\n        );", "        let allowed = self.suicide_allowed();\n        let ((black_prisoners, white_prisoners), ko_point) =\n            self.goban\n                .remove_captured_stones_aux(allowed, dead_chains, added_chain);"), (GA, "    /// Displays the internal board.", "    fn suicide_allowed(&self) -> bool {\n        let forbidden = self.rule.flag_illegal & IllegalRules::SUICIDE;\n        forbidden.is_empty()\n    }\n\n    /// Displays the internal board."))
C("set_nobranch", (GR, "    let chunk = index / BITS;\n    let bit_index = index % BITS;\n    let mask = 1 << bit_index;\n    if VAL {\n        lib[chunk] |= mask;\n    } else {\n        lib[chunk] &= !mask;\n    }", "    let mask: Bucket = 1 << (index % BITS);\n    let bucket = &mut lib[index / BITS];\n    *bucket = if VAL { *bucket | mask } else { *bucket & !mask };"))
C("merge_loop", (GR, "lib.iter_mut().zip(o).for_each(|(x, o)| x.bitor_assign(o))", "for i in 0..SIZE {\n        lib[i] |= o[i];\n    }"), (GR, "use std::ops::{BitOrAssign, Index, IndexMut};", "use std::ops::{Index, IndexMut};"))
C("any_ne", (GR, "lib.iter().any(|&x| x != 0)", "*lib != EMPTY_LIBERTIES"))
C("any_loop", (GR, "    lib.iter().any(|&x| x != 0)", "    for x in lib {\n        if *x > 0 {\n            return true;\n        }\n    }\n    false"))
C("count_loop", (GR, "    lib.iter().map(|x| x.count_ones() as usize).sum()", "    let mut n = 0;\n    for x in lib.iter() {\n        n += x.count_ones() as usize;\n    }\n    n"))
C("count_fold", (GR, "    lib.iter().map(|x| x.count_ones() as usize).sum()", "    lib.iter().fold(0, |n, x| n + x.count_ones() as usize)"))
C("ones_filter", (GR, "    lib.iter().enumerate().flat_map(|(ix, chunk)| {\n        let mut chunk = *chunk;\n        let mut ixs = ArrayVec::<usize, BITS>::new();\n        let mut index = 0;\n        while chunk != 0 {\n            let zeros = chunk.trailing_zeros();\n            index += zeros as usize + 1;\n            ixs.push(index - 1 + BITS * ix);\n            chunk = chunk.checked_shr(zeros + 1).unwrap_or(0);\n        }\n        ixs.into_iter()\n    })", "    (0..SIZE * BITS).filter(move |&i| get(i, lib))"), (GR, "use arrayvec::ArrayVec;\n", ""))
C("get_shift", (GR, "    let chunk = index / BITS;\n    let bit_index = index % BITS;\n    (lib[chunk] & (1 << bit_index)) != 0", "    (lib[index / BITS] >> (index % BITS)) & 1 == 1"))
C("addlibs_each", (GR, "        for idx in stones_idx {\n            self.add_liberty(idx);\n        }\n        self", "        stones_idx.for_each(|idx| {\n            self.add_liberty(idx);\n        });\n        self"))
C("put_free_match", (GR, "        if let Some(free) = self.0.iter().position(|e| e.is_none()) {\n            self.0[free] = Some(group);\n            return free;\n        }\n        self.0.push(Some(group));\n        self.0.len() - 1", "        match self.0.iter().position(Option::is_none) {\n            Some(slot) => {\n                self.0[slot] = Some(group);\n                slot\n            }\n            None => {\n                let slot = self.0.len();\n                self.0.push(Some(group));\n                slot\n            }\n        }"))
C("put_free_loop", (GR, "        if let Some(free) = self.0.iter().position(|e| e.is_none()) {\n            self.0[free] = Some(group);\n            return free;\n        }", "        for (free, slot) in self.0.iter_mut().enumerate() {\n            if slot.is_none() {\n                *slot = Some(group);\n                return free;\n            }\n        }"))
C("groups_flatten", (GR, "self.0.iter().filter_map(|e| e.as_ref())", "self.0.iter().flatten()"))
C("circ_next", (GR, "        self.next = self\n            .next\n            .map(|stone_idx| self.next_stone[stone_idx] as usize)\n            .filter(move |&o| o != origin);", "        if let Some(idx) = ret {\n            let after = self.next_stone[idx] as usize;\n            self.next = if after == origin { None } else { Some(after) };\n        }"))
C("tovec_coords", (G, "            .map(|point| {\n                point.map_or(EMPTY, |go_str_ptr| {\n                    self.chains[go_str_ptr.get() as usize].color.into()\n                })\n            })\n            .collect()", "            .map(|point| point.map(|ptr| self.chains[ptr].color))\n            .collect()"))
C("tovec_range", (G, "        self.board[..board_length]\n            .iter()\n            .map(|point| {\n                point.map_or(EMPTY, |go_str_ptr| {\n                    self.chains[go_str_ptr.get() as usize].color.into()\n                })\n            })\n            .collect()", "        (0..board_length).map(|i| self.get_color(i)).collect()"))
C("matrix_rows", (G, "        let mut mat = vec![];\n        let board_length = self.size.0 as usize * self.size.1 as usize;\n        for line in self.board[..board_length].chunks_exact(self.size.1 as usize) {\n            let v = line\n                .iter()\n                .map(|o| o.map_or(EMPTY, |idx| self.chains[idx].color.into()))\n                .collect();\n            mat.push(v);\n        }\n        mat", "        (0..self.size.0)\n            .map(|row| (0..self.size.1).map(|col| self.get_color((row, col))).collect())\n            .collect()"))
C("matrix_map", (G, "        let mut mat = vec![];\n        let board_length = self.size.0 as usize * self.size.1 as usize;\n        for line in self.board[..board_length].chunks_exact(self.size.1 as usize) {\n            let v = line\n                .iter()\n                .map(|o| o.map_or(EMPTY, |idx| self.chains[idx].color.into()))\n                .collect();\n            mat.push(v);\n        }\n        mat", "        let board_length = self.size.0 as usize * self.size.1 as usize;\n        self.board[..board_length]\n            .chunks_exact(self.size.1 as usize)\n            .map(|line| {\n                line.iter()\n                    .map(|o| o.map(|idx| self.chains[idx].color))\n                    .collect()\n            })\n            .collect()"))
C("stones_if", (G, "            match group.color {\n                Color::White => {\n                    white_stones += group.num_stones as u32;\n                }\n                Color::Black => {\n                    black_stones += group.num_stones as u32;\n                }\n            }", "            let n = u32::from(group.num_stones);\n            if group.color == Color::Black {\n                black_stones += n;\n            } else {\n                white_stones += n;\n            }"))
C("stones_fold", (G, "        let mut black_stones = 0;\n        let mut white_stones = 0;\n\n        for group in self.chains.iter() {\n            match group.color {\n                Color::White => {\n                    white_stones += group.num_stones as u32;\n                }\n                Color::Black => {\n                    black_stones += group.num_stones as u32;\n                }\n            }\n        }\n\n        (black_stones, white_stones)", "        let count = |color: Color| {\n            self.chains\n                .iter()\n                .filter(|g| g.color == color)\n                .map(|g| g.num_stones as u32)\n                .sum()\n        };\n        (count(Color::Black), count(Color::White))"))
C("push_classify", (G, "        // For each neighbor we fill the right vector\n        for neighbor_idx in self.neighbors_idx(pushed_stone_idx) {\n            match self.board[neighbor_idx] {\n                Some(adj_ren_index) => {\n                    let adj_ren_index = adj_ren_index.get() as usize;\n                    if self.chains[adj_ren_index].color == color {\n                        if !adjacent_same_color_str_set.contains(&adj_ren_index) {\n                            adjacent_same_color_str_set.push(adj_ren_index);\n                        }\n                    } else if !adjacent_opposite_color_str_set.contains(&adj_ren_index) {\n                        adjacent_opposite_color_str_set.push(adj_ren_index);\n                    }\n                }\n                None => {\n                    liberties.push(neighbor_idx);\n                }\n            }\n        }", "        // For each neighbor we fill the right vector\n        for neighbor_idx in self.neighbors_idx(pushed_stone_idx) {\n            let Some(chain) = self.board[neighbor_idx] else {\n                liberties.push(neighbor_idx);\n                continue;\n            };\n            let chain = chain.get() as usize;\n            let set = if self.chains[chain].color == color {\n                &mut adjacent_same_color_str_set\n            } else {\n                &mut adjacent_opposite_color_str_set\n            };\n            if !set.contains(&chain) {\n                set.push(chain);\n            }\n        }"))
C("push_split", (G, "        let mut dead_ren = ArrayVec::<BoardIdx, 4>::new();\n        // for every string of opposite color remove a liberty and update the string.\n        for ren_idx in adjacent_opposite_color_str_set {\n            let group = &mut self.chains[ren_idx];\n            group.remove_liberty(pushed_stone_idx);\n            if group.is_dead() {\n                dead_ren.push(ren_idx);\n            }\n        }", "        let dead_ren = self.take_liberty(&adjacent_opposite_color_str_set, pushed_stone_idx);"), (G, "    pub(crate) fn remove_captured_stones_aux(", "    /// Removes a liberty of each chain and returns those that are dead.\n    fn take_liberty(&mut self, chains: &[GroupIdx], liberty: BoardIdx) -> ArrayVec<usize, 4> {\n        let mut dead = ArrayVec::new();\n        for &idx in chains {\n            if self.chains[idx].remove_liberty(liberty).is_dead() {\n                dead.push(idx);\n            }\n        }\n        dead\n    }\n\n    pub(crate) fn remove_captured_stones_aux("))
C("push_one", (G, "                self.chains[only_ren_idx]\n                    .remove_liberty(pushed_stone_idx)\n                    .union_liberties_slice(&liberties);\n                self.add_stone_to_chain(only_ren_idx, pushed_stone_idx);\n                self.board[pushed_stone_idx] = Some(NonMaxU16::new(only_ren_idx as u16).unwrap());", "                self.add_stone_to_chain(only_ren_idx, pushed_stone_idx);\n                self.board[pushed_stone_idx] = NonMaxU16::new(only_ren_idx as u16);\n                let chain = &mut self.chains[only_ren_idx];\n                chain.remove_liberty(pushed_stone_idx);\n                chain.union_liberties_slice(&liberties);"))
C("push_hash_first", (G, "        let number_of_neighbors_strings = adjacent_same_color_str_set.len();", "        self.zobrist_hash ^= index_zobrist(pushed_stone_idx, color);\n        let number_of_neighbors_strings = adjacent_same_color_str_set.len();"), (G, "        self.zobrist_hash ^= index_zobrist(pushed_stone_idx, color);\n        #[cfg(debug_assertions)]", "        #[cfg(debug_assertions)]"))
C("aux_helper", (G, "            match dead_chain.color {\n                Color::White => {\n                    stones_removed.0 += dead_chain.num_stones as u32;\n                }\n                Color::Black => {\n                    stones_removed.1 += dead_chain.num_stones as u32;\n                }\n            }\n            self.remove_chain(dead_ren_idx);", "            Self::credit(&mut stones_removed, dead_chain);\n            self.remove_chain(dead_ren_idx);"), (G, "            match maybe_dead_chain.color {\n                Color::White => {\n                    stones_removed.0 += maybe_dead_chain.num_stones as u32;\n                }\n                Color::Black => {\n                    stones_removed.1 += maybe_dead_chain.num_stones as u32;\n                }\n            }\n            ko_point = None;", "            Self::credit(&mut stones_removed, maybe_dead_chain);\n            ko_point = None;"), (G, "    pub(crate) fn remove_captured_stones_aux(", "    fn credit(prisoners: &mut (u32, u32), chain: &Group) {\n        let n = chain.num_stones as u32;\n        match chain.color {\n            Color::Black => prisoners.1 += n,\n            Color::White => prisoners.0 += n,\n        }\n    }\n\n    pub(crate) fn remove_captured_stones_aux("))
C("aux_ko_after", (G, "            // If only one stone and one group is removed then it becomes a ko point\n            if dead_chain.num_stones == 1 && only_one_ren_removed {\n                ko_point = Some(one_to_2dim(self.size(), dead_chain.origin as usize));\n            }\n", ""), (G, "        let mut ko_point = None;\n        for &dead_ren_idx", "        let mut ko_point = match dead_rens_indices {\n            [only] if self.chains[*only].num_stones == 1 => {\n                Some(one_to_2dim(self.size, self.chains[*only].origin as usize))\n            }\n            _ => None,\n        };\n        for &dead_ren_idx"), (G, "        let only_one_ren_removed = dead_rens_indices.len() == 1;\n", ""))
C("groups_idx_helper", (G, "        for idx in self.neighbors_idx(index) {\n            if let Some(idx) = self.board[idx] {\n                if !array_vec.contains(&(idx.get() as usize)) {\n                    array_vec.push(idx.get() as usize);\n                }\n            }\n        }", "        for chain in self.neighbors_idx(index).filter_map(|n| self.board[n]) {\n            let chain = chain.get() as usize;\n            if array_vec.iter().all(|&c| c != chain) {\n                array_vec.push(chain);\n            }\n        }"))
C("getcolor_match", (G, "        self.board[idx].map(|chain_id| self.chains[chain_id.get() as usize].color)", "        match self.board[idx] {\n            Some(chain) => Some(self.chains[chain].color),\n            None => EMPTY,\n        }"))
C("empty_idx_filter", (G, "            .filter_map(|(idx, group)| group.is_none().then_some(idx))", "            .filter(|(_, group)| group.is_none())\n            .map(|(idx, _)| idx)"))
C("empty_coords_idx", (G, "        let board_length = self.size.0 as usize * self.size.1 as usize;\n        self.board[..board_length]\n            .iter()\n            .enumerate()\n            .filter_map(|x| {\n                if x.1.is_none() {\n                    Some(one2dim!(self.size, x.0))\n                } else {\n                    None\n                }\n            })", "        self.get_empty_idx()\n            .map(move |idx| one_to_2dim(self.size, idx))"), (G, "use crate::one2dim;\n", ""))
C("by_color_filter", (G, "        let mut res = ArrayVec::<Coord, BOARD_MAX_LENGTH>::new();\n        for board_idx in 0..self.size.0 as usize * self.size.1 as usize {\n            match color {\n                EMPTY if self.board[board_idx].is_some() => {}\n                EMPTY => res.push(one_to_2dim(self.size, board_idx)),\n                Some(c) => self.board[board_idx]\n                    .filter(|&chain_idx| self.chains[chain_idx.get() as usize].color == c)\n                    .map(|_| res.push(one_to_2dim(self.size, board_idx)))\n                    .unwrap_or(()),\n            }\n        }\n        res.into_iter()", "        (0..self.size.0 as usize * self.size.1 as usize)\n            .filter(move |&idx| self.get_color(idx) == color)\n            .map(move |idx| one_to_2dim(self.size, idx))"))
C("has_lib_any", (G, "        self.get_liberties(coord).next().is_some()", "        self.neighbors_coords(coord)\n            .any(|p| self.get_color(p).is_none())"))
C("pretty_helper", (G, "                    EMPTY => {\n                        match (\n                            i == 0,\n                            i == self.size.0 as Nat - 1,\n                            j == 0,\n                            j == self.size.1 as Nat - 1,\n                        ) {", "                    None => {\n                        let (height, width) = self.size;\n                        let edges = (i == 0, i + 1 == height, j == 0, j + 1 == width);\n                        match edges {"))
C("remove_body", (G, "            let mut neighbors_chains = self.get_connected_groups_idx(point_idx);\n            // We remove our group from the neighbors\n            neighbors_chains.retain(|x| *x != ren_to_remove_idx);\n\n            for &n in &neighbors_chains {\n                self.chains[n].add_liberty(point_idx);\n            }\n            self.zobrist_hash ^= index_zobrist(point_idx, color_of_the_string);\n            self.board[point_idx] = None;", "            self.board[point_idx] = None;\n            self.zobrist_hash ^= index_zobrist(point_idx, color_of_the_string);\n            for n in self.get_connected_groups_idx(point_idx) {\n                if n != ren_to_remove_idx {\n                    self.chains[n].add_liberty(point_idx);\n                }\n            }"))
C("update_set", (G, "            self.board[point] = Some(NonMaxU16::new(chain_idx as u16).unwrap());\n        }\n    }", "            self.board[point] = Some(chain);\n        }\n    }"), (G, "        for point in self.chains[chain_idx].iter(&self.next_stone) {", "        let chain = NonMaxU16::new(chain_idx as u16).unwrap();\n        for point in self.chains[chain_idx].iter(&self.next_stone) {"))
C("create_fold", (G, "        let mut lib_bitset: Liberties = EMPTY_LIBERTIES;\n        for &board_idx in liberties {\n            set::<true>(board_idx, &mut lib_bitset);\n        }\n        let chain_to_place = Group::new_with_liberties(color, origin, lib_bitset);", "        let mut chain_to_place = Group::new(color, origin);\n        chain_to_place.union_liberties_slice(liberties);"), (G, "use crate::pieces::group::{merge, set, Group, Groups, Liberties, EMPTY_LIBERTIES};", "use crate::pieces::group::{merge, Group, Groups};"))
C("addstone_common", (G, "        if stone < group.origin as usize {\n            // replace origin\n            self.next_stone[stone] = group.origin;\n            self.next_stone[group.last as usize] = stone as u16;\n            group.origin = stone as u16;\n        } else {\n            self.next_stone[group.last as usize] = stone as u16;\n            self.next_stone[stone] = group.origin;\n            group.last = stone as u16;\n        }", "        self.next_stone[group.last as usize] = stone as u16;\n        self.next_stone[stone] = group.origin;\n        if stone < group.origin as usize {\n            group.origin = stone as u16;\n        } else {\n            group.last = stone as u16;\n        }"))
C("merge_take", (G, "        // We merge liberties\n        merge(&mut chain1.liberties, &chain2.liberties);\n\n        // We update chain1 origin and last\n        let chain1_last = chain1.last;\n        let chain2_last = chain2.last;\n\n        let chain1_origin = chain1.origin;\n        let chain2_origin = chain2.origin;\n\n        // We need to merge two so we take the least origin, or we make group 1 point to group 2\n        if chain1_origin > chain2_origin {\n            chain1.origin = chain2_origin;\n        } else {\n            chain1.last = chain2_last;\n        }\n", "        // We merge liberties\n        chain1.union_liberties(chain2.liberties);\n\n        let (chain1_last, chain2_last) = (chain1.last, chain2.last);\n        if chain2.origin < chain1.origin {\n            chain1.origin = chain2.origin;\n        } else {\n            chain1.last = chain2.last;\n        }\n"), (G, "use crate::pieces::group::{merge, set, Group, Groups, Liberties, EMPTY_LIBERTIES};", "use crate::pieces::group::{set, Group, Groups, Liberties, EMPTY_LIBERTIES};"))
C("merge_copy", (G, "        // We select the biggest group first to optimize the merging\n        let (chain1, chain2) = if chain1_idx < chain2_idx {\n            let (s1, s2) = self.chains.0.split_at_mut(chain2_idx);\n            (&mut s1[chain1_idx], s2.first_mut().unwrap())\n        } else {\n            // ren2_idx > ren1_idx\n            let (contains_chain2, contains_ren1) = self.chains.0.split_at_mut(chain1_idx);\n            (\n                contains_ren1.first_mut().unwrap(),\n                &mut contains_chain2[chain2_idx],\n            )\n        };\n\n        let chain1 = chain1.as_mut().unwrap();\n        let chain2 = chain2.as_ref().unwrap();\n", "        let chain2 = self.chains[chain2_idx];\n        let chain1 = &mut self.chains[chain1_idx];\n"))
C("eq_zip", (G, "        if self.size != other.size || self.zobrist_hash != other.zobrist_hash {\n            return false;\n        }\n\n        for x in 0..self.size.0 {\n            for y in 0..self.size.1 {\n                if self.get_color((x, y)) != other.get_color((x, y)) {\n                    return false;\n                }\n            }\n        }\n\n        true", "        self.size == other.size\n            && self.zobrist_hash == other.zobrist_hash\n            && (0..self.size.0).all(|x| {\n                (0..self.size.1).all(|y| self.get_color((x, y)) == other.get_color((x, y)))\n            })"))
C("eq_index", (G, "        for x in 0..self.size.0 {\n            for y in 0..self.size.1 {\n                if self.get_color((x, y)) != other.get_color((x, y)) {\n                    return false;\n                }\n            }\n        }\n\n        true", "        let length = self.size.0 as usize * self.size.1 as usize;\n        (0..length).all(|i| self.get_color(i) == other.get_color(i))"))
C("valid_filter", (U, "        let mut array_vec = ArrayVec::from(neighbor_coords((x1, x2)));\n        array_vec.retain(|x| is_coord_valid(size, *x));\n        array_vec", "        neighbor_coords((x1, x2))\n            .into_iter()\n            .filter(|&p| is_coord_valid(size, p))\n            .collect()"))
C("two_usize", (U, "(point.0 as u32 * size.1 as u32 + point.1 as u32) as usize", "point.0 as usize * size.1 as usize + point.1 as usize"))
C("one_vars", (U, "        (\n            (index / size.1 as usize) as u8,\n            (index % size.1 as usize) as u8,\n        )\n    }\n\n    #[macro_export]", "        let width = size.1 as usize;\n        let row = index / width;\n        (row as u8, (index - row * width) as u8)\n    }\n\n    #[macro_export]"))
C("terr_flags", (T, "                    if point.color == Some(Color::White) {\n                        neutral.1 = true; // found white stone\n                    }\n                    if point.color == Some(Color::Black) {\n                        neutral.0 = true; // found black stone\n                    }", "                    match point.color {\n                        Some(Color::White) => neutral.1 = true,\n                        Some(Color::Black) => neutral.0 = true,\n                        None => {}\n                    }"))
C("terr_match", (T, "            if neutral.0 && !neutral.1 {\n                black_territory.extend(empty_group.into_iter())\n            } else if !neutral.0 && neutral.1 {\n                white_territory.extend(empty_group.into_iter())\n            }", "            match neutral {\n                (true, false) => black_territory.extend(empty_group),\n                (false, true) => white_territory.extend(empty_group),\n                _ => {}\n            }"))
C("terr_helper", (T, "            let mut neutral = (false, false);\n            for empty_intersection in &empty_group {\n                for point in self.get_connected_points(empty_intersection.coord) {\n                    if point.color == Some(Color::White) {\n                        neutral.1 = true; // found white stone\n                    }\n                    if point.color == Some(Color::Black) {\n                        neutral.0 = true; // found black stone\n                    }\n                    if neutral.0 && neutral.1 {\n                        // if the territory is surrounded by two colors then pass\n                        continue 'outer;\n                    }\n                }\n            }", "            let touches = |color: Color| {\n                empty_group.iter().any(|p| {\n                    self.get_connected_points(p.coord)\n                        .any(|n| n.color == Some(color))\n                })\n            };\n            let neutral = (touches(Color::Black), touches(Color::White));\n            if neutral == (true, true) {\n                continue 'outer;\n            }"))
C("group_extend", (T, "            to_explore.extend(\n                self.get_connected_points(stone_to_explore.coord)\n                    .filter(|p| p.color == stone.color && !explored.contains(p)),\n            )", "            for p in self.get_connected_points(stone_to_explore.coord) {\n                if p.color == stone.color && !explored.contains(&p) {\n                    to_explore.push(p);\n                }\n            }"))
C("chains_from", (T, "            let is_handled = groups_of_stones.iter().any(|set| set.contains(&s));\n\n            if !is_handled {\n                groups_of_stones.push(self.get_group_from_point(s))\n            }", "            if groups_of_stones.iter().any(|set| set.contains(&s)) {\n                continue;\n            }\n            let group = self.get_group_from_point(s);\n            groups_of_stones.push(group);"))
C("build_parts", (B, "        for point in self.handicap_points {\n            check_free_point(&goban, point)?;\n            goban.push(point, Color::Black);\n        }\n\n        // Setup\n        for s in self.setup {\n            check_free_point(&goban, s.coord)?;\n            goban.push_stone(s);\n        }", "        let handicap_stones = self.handicap_points.iter().map(|&coord| Stone {\n            coord,\n            color: Color::Black,\n        });\n        for stone in handicap_stones.chain(self.setup.iter().copied()) {\n            check_free_point(&goban, stone.coord)?;\n            goban.push_stone(stone);\n        }"))
C("build_turn", (B, "        let turn = {\n            self.turn.unwrap_or(if handicap != 0 {\n                Color::White\n            } else {\n                Color::Black\n            })\n        };", "        let turn = match (self.turn, handicap) {\n            (Some(color), _) => color,\n            (None, 0) => Color::Black,\n            (None, _) => Color::White,\n        };"))
C("build_moves", (B, "        for &m in &self.moves {\n            match m {\n                Move::Play(x, y) => check_free_point(&g.goban, (x, y))?,\n                Move::Pass if g.passes >= 2 => return Err(\"Pass in a paused game\".to_string()),\n                _ => {}\n            }\n            g.play(m);\n        }\n\n        Ok(g)", "        for m in self.moves {\n            if let Move::Play(x, y) = m {\n                check_free_point(&g.goban, (x, y))?;\n            } else if m == Move::Pass && g.passes > 1 {\n                return Err(String::from(\"Pass in a paused game\"));\n            }\n            g.play(m);\n        }\n        Ok(g)"))
C("build_noclone", (B, "            goban: goban.clone(),", "            goban,"))
C("build_take", (B, "        let this = take(self);\n\n        this.build_inner()", "        std::mem::take(self).build_inner()"))
C("check_free", (B, "    if !is_coord_valid(goban.size(), point) {\n        Err(format!(\"The point {point:?} is outside the board\"))\n    } else if goban.get_color(point).is_some() {\n        Err(format!(\"The point {point:?} is not empty\"))\n    } else {\n        Ok(())\n    }", "    if !is_coord_valid(goban.size(), point) {\n        return Err(format!(\"The point {point:?} is outside the board\"));\n    }\n    match goban.get_color(point) {\n        None => Ok(()),\n        Some(_) => Err(format!(\"The point {point:?} is not empty\")),\n    }"))
C("sgf_parse", (S, "        let game_tree = match sgf_parser::parse(sgf_str) {\n            Ok(game) => Ok(game),\n            Err(e) => Err(e.to_string()),\n        }?;", "        let game_tree = sgf_parser::parse(sgf_str).map_err(|e| e.to_string())?;"))
C("sgf_color_into", (S, "                                color: match color {\n                                    SgfColor::Black => Color::Black,\n                                    SgfColor::White => Color::White,\n                                },", "                                color: (*color).into(),"))
C("sgf_pl_helper", (S, "                                match value.as_str() {\n                                    \"B\" => {\n                                        first_player = Some(Color::Black);\n                                    }\n                                    \"W\" => {\n                                        first_player = Some(Color::White);\n                                    }\n                                    _ => return Err(format!(\"Unknown player {value}.\")),\n                                }", "                                first_player = Some(player_from(value)?);"), (S, "impl From<RuleSet> for Rule {", "fn player_from(value: &str) -> Result<Color, String> {\n    if value == \"B\" {\n        Ok(Color::Black)\n    } else if value == \"W\" {\n        Ok(Color::White)\n    } else {\n        Err(format!(\"Unknown player {value}.\"))\n    }\n}\n\nimpl From<RuleSet> for Rule {"))
C("sgf_first", (S, "        let mut first = true;\n", ""), (S, "        for node in game_tree.iter() {\n            if first {", "        for (depth, node) in game_tree.iter().enumerate() {\n            if depth == 0 {"), (S, "                first = false;\n", ""))
C("sgf_moves_opt", (S, "                    first_player.get_or_insert((*color).into());\n", "                    if first_player.is_none() {\n                        first_player = Some((*color).into());\n                    }\n"))
C("sgf_outcome_if", (S, "        match a {\n            // \"tt\" is a pass on the boards up to 19x19\n            Action::Move(20, 20) => Move::Pass,\n            Action::Move(col, line) => Move::Play(line.wrapping_sub(1) as Nat, col.wrapping_sub(1) as Nat),\n            Action::Pass => Move::Pass,\n        }", "        match a {\n            Action::Move(col, line) if (col, line) != (20, 20) => {\n                let coord = |n: u8| n.wrapping_sub(1) as Nat;\n                Move::Play(coord(line), coord(col))\n            }\n            _ => Move::Pass,\n        }"))
C("dead_legals", (D, "        if moves.is_empty() {\n            if self.is_over() {\n                vec![]\n            } else {\n                vec![Move::Pass]\n            }\n        } else {\n            moves\n        }", "        if moves.is_empty() && !self.is_over() {\n            return vec![Move::Pass];\n        }\n        moves"))
C("dead_leaf", (D, "        let winner = child.outcome().and_then(|outcome| outcome.get_winner());\n        if winner == Some(*turn) {\n            1\n        } else {\n            0\n        }", "        match child.outcome().and_then(EndGame::get_winner) {\n            Some(winner) if winner == *turn => 1,\n            _ => 0,\n        }"), (D, "use crate::rules::{Color, IllegalRules, Move};", "use crate::rules::{Color, EndGame, IllegalRules, Move};"))
C("dead_any", (D, "            for stone in self.chain_stones(chain_idx) {\n                // If some stones of the string aren't in the final goban then it's plausible that\n                // this string is dead.\n                if final_state_raw.get_color(stone.coord) != Some(stone.color) {\n                    dead_chains.insert(chain_idx);\n                    break;\n                }\n            }", "            let lost = self\n                .chain_stones(chain_idx)\n                .any(|stone| final_state_raw.get_color(stone.coord) != Some(stone.color));\n            if lost {\n                dead_chains.insert(chain_idx);\n            }"))
C("dead_floating", (D, "        let string_with_2eyes = chains_wth_eye\n            .into_iter()\n            .filter(|(_, v)| *v >= 2)\n            .map(|x| x.0)\n            .collect::<HashSet<_>>();\n\n        all_chains\n            .filter(|(idx, _chain)| !string_with_2eyes.contains(idx))\n            .map(|(idx, _chain)| idx)\n            .collect()", "        all_chains\n            .map(|(idx, _chain)| idx)\n            .filter(|idx| chains_wth_eye.get(idx).copied().unwrap_or(0) < 2)\n            .collect()"))
C("winner_if", (M, "        match self {\n            EndGame::WinnerByScore(p, _)\n            | EndGame::WinnerByResign(p)\n            | EndGame::WinnerByTime(p)\n            | EndGame::WinnerByForfeit(p) => Some(p),\n            EndGame::Draw => None,\n        }", "        match self {\n            EndGame::Draw => None,\n            EndGame::WinnerByScore(p, _) => Some(p),\n            EndGame::WinnerByResign(p)\n            | EndGame::WinnerByTime(p)\n            | EndGame::WinnerByForfeit(p) => Some(p),\n        }"))
C("size_if", (M, "            9 => GobanSizes::Nine,\n            13 => GobanSizes::Thirteen,\n            19 => GobanSizes::Nineteen,\n            _ => panic!(\"Not implemented for others size than 9,13,19\"),", "            19 => GobanSizes::Nineteen,\n            13 => GobanSizes::Thirteen,\n            9 => GobanSizes::Nine,\n            other => panic!(\"Not implemented for size {other}, only 9,13,19\"),"))
C("color_not_if", (ST, "        match self {\n            Color::Black => Color::White,\n            Color::White => Color::Black,\n        }", "        if self == Color::Black {\n            Color::White\n        } else {\n            Color::Black\n        }"))
C("try_from_map", (ST, "        if let Some(color) = value.color {\n            Ok(Stone {\n                coord: value.coord,\n                color,\n            })\n        } else {\n            Err(\"We cannot transform an empty point to a stone\")\n        }", "        let coord = value.coord;\n        value\n            .color\n            .map(|color| Stone { coord, color })\n            .ok_or(\"We cannot transform an empty point to a stone\")"))
C("from_slice", (G, "        stones\n            .iter()\n            .enumerate()\n            .map(|(index, color)| (one_to_2dim((size, size), index), color))\n            .filter_map(|(coord, m_color)| m_color.map(|color| (coord, color)))\n            .for_each(|coord_color| {\n                game.push(coord_color.0, coord_color.1);\n            });\n        game", "        for (index, stone) in stones.iter().enumerate() {\n            if let Some(color) = *stone {\n                game.push(one_to_2dim((size, size), index), color);\n            }\n        }\n        game"))
C("new_expr", (GA, "        let (h, w) = size.into();\n        let goban = Goban::new(size.into());\n        let length = h as usize * w as usize;\n        let prisoners = (0, 0);\n        let handicap = 0;\n        let history = IndexSet::with_capacity_and_hasher(length, HashBuildHasher::default());", "        let goban = Goban::new(size.into());\n        let prisoners = (0, 0);\n        let handicap = 0;\n        let history = IndexSet::default();"), (GA, "use hash_hasher::{HashBuildHasher, HashHasher};", "use hash_hasher::HashHasher;"))
C("field_count", (GA, "    pub(super) ko_point: Option<Coord>,\n}", "    pub(super) ko_point: Option<Coord>,\n    pub(super) move_count: u32,\n}"), (GA, "            history,\n            ko_point: None,\n        }", "            history,\n            ko_point: None,\n            move_count: 0,\n        }"), (B, "            ko_point: None,\n        };", "            ko_point: None,\n            move_count: 0,\n        };"), (GA, "                self.turn = !self.turn;\n                self.passes = 0;", "                self.turn = !self.turn;\n                self.move_count += 1;\n                self.passes = 0;"))
