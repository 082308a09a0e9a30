"""Arithmetic bugs (C23)."""
G = "src/pieces/goban.rs"; GR = "src/pieces/group.rs"; U = "src/pieces/util.rs"; T = "src/pieces/territory.rs"
GA = "src/rules/game.rs"; B = "src/rules/game_builder.rs"; M = "src/rules/mod.rs"; S = "src/rules/sgf_bridge.rs"
CASES = []


def C(name, prop, *e):
    CASES.append((name, prop, list(e)))


C("n_two", "C23", (U, "(point.0 as u32 * size.1 as u32 + point.1 as u32) as usize", "(point.0 * size.1) as usize + point.1 as usize"))
C("n_two16", "C23", (U, "(point.0 as u32 * size.1 as u32 + point.1 as u32) as usize", "(point.0 as u16 * size.1 as u16 + point.1 as u16) as u8 as usize"))
C("n_one", "C23", (U, "            (index / size.1 as usize) as u8,\n            (index % size.1 as usize) as u8,\n        )", "            index as u8 / size.1,\n            index as u8 % size.1,\n        )"))
C("n_stones8", "C23", (G, "black_stones += group.num_stones as u32;", "black_stones += group.num_stones as u8 as u32;"))
C("n_stones_acc", "C23", (G, "        let mut black_stones = 0;\n        let mut white_stones = 0;", "        let mut black_stones = 0u8;\n        let mut white_stones = 0u8;"), (G, "white_stones += group.num_stones as u32;", "white_stones += group.num_stones as u8;"), (G, "black_stones += group.num_stones as u32;", "black_stones += group.num_stones as u8;"), (G, "        (black_stones, white_stones)\n", "        (black_stones as u32, white_stones as u32)\n"))
C("n_pris", "C23", (G, "stones_removed.0 += maybe_dead_chain.num_stones as u32;", "stones_removed.0 += maybe_dead_chain.num_stones as u8 as u32;"))
C("n_len", "C23", (GA, "let length = h as usize * w as usize;", "let length = (h * w) as usize;"))
C("n_board", "C23", (G, "        let board_length = self.size.0 as usize * self.size.1 as usize;\n        for line", "        let board_length = (self.size.0 * self.size.1) as usize;\n        for line"))
C("n_empty", "C23", (G, "for board_idx in 0..self.size.0 as usize * self.size.1 as usize {", "for board_idx in 0..(self.size.0 * self.size.1) as usize {"))
C("n_chainid", "C23", (G, "self.board[point] = Some(NonMaxU16::new(chain_idx as u16).unwrap());", "self.board[point] = Some(NonMaxU16::new(chain_idx as u8 as u16).unwrap());"))
C("n_stone16", "C23", (G, "        self.next_stone[origin] = origin as u16;", "        self.next_stone[origin] = origin as u8 as u16;"))
C("n_handi", "C23", (GA, "self.handicap = points.len() as u32;", "self.handicap = points.len() as u8 as u32;"))
C("n_vec", "C23", (GA, "Vec::with_capacity(size.0 as usize * size.1 as usize)", "Vec::with_capacity((size.0 * size.1) as usize)"))
C("n_terr8", "C23", (GA, "black_score += black_stones as f32;", "black_score += black_stones as u8 as f32;"))
C("n_corner", "C23", (U, "            (x1 + 1, x2.wrapping_sub(1)),", "            (x1 + 1, x2 - 1),"))
