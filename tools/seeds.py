"""Development tool: turns entries of bugs.py into /verif/seeded/<name>: (bug, property, needs, what it breaks, demo body)."""
HEAD = r'''#![allow(unused_imports, unused_variables, unused_mut, dead_code)]
use goban::pieces::goban::Goban;
use goban::pieces::stones::{Color, Point, Stone};
use goban::rules::game::Game;
use goban::rules::game_builder::GameBuilder;
use goban::rules::*;
use Move::{Pass, Play};
fn empty(n: u8, m: u8) -> Game {
    Game::new(GobanSizes::Custom(n.into(), m.into()), CHINESE)
}
fn board(n: u8, m: u8, black: &[(u8, u8)], white: &[(u8, u8)]) -> Goban {
    let mut g = Goban::new((n, m));
    g.push_many(black, Color::Black);
    g.push_many(white, Color::White);
    g
}
fn game(n: u8, m: u8, rule: Rule, black: &[(u8, u8)], white: &[(u8, u8)], turn: Color) -> Game {
    let mut b = Game::builder();
    b.size((n, m)).rule(rule).turn(turn);
    for &coord in black {
        b.add(Stone { coord, color: Color::Black });
    }
    for &coord in white {
        b.add(Stone { coord, color: Color::White });
    }
    b.build().unwrap()
}
'''
SEEDS = []
def D(bug, prop, needs, breaks, body):
    SEEDS.append((bug, prop, needs, breaks, HEAD + "fn main() {\n" + body + "\n}\n"))

D("ko_multi", "C11", "a play that captures two single stone chains at once", "a double capture sets a ko point, so the later retake of one of them is refused as ko", r'''
    // white stones (0,1) and (1,0) both in atari at (0,0)'s side: black plays (0,0)?  use the middle of the board
    let mut g = game(9, 9, CHINESE, &[(3, 4), (4, 3), (4, 5), (5, 4), (3, 6), (5, 6), (4, 7)].iter().copied().filter(|p| *p != (4, 5)).collect::<Vec<_>>(), &[(4, 4), (4, 6)], Color::Black);
    g.play(Play(4, 5));
    assert_eq!(g.prisoners().0, 2);
    for p in [(4u8, 4u8), (4, 6)] {
        assert!(!g.check_ko(Stone { coord: p, color: Color::White }), "no ko after a double capture");
    }''')
D("merge_last", "C03", "two chains of several stones joined by one stone", "the circular list of the merged chain loses stones", r'''
    std::panic::set_hook(Box::new(|_| {}));
    for seed in 0..60u32 {
        let mut g = Goban::new((9, 9));
        let mut x = seed * 7919 + 13;
        let mut pts: Vec<(u8, u8)> = vec![];
        for _ in 0..40 {
            x = x.wrapping_mul(1103515245).wrapping_add(12345);
            let p = (((x >> 16) % 7) as u8, ((x >> 8) % 7) as u8);
            if !pts.contains(&p) {
                pts.push(p);
                g.push(p, Color::Black);
            }
        }
        let mut got = vec![];
        for i in 0..60usize {
            let h = g.clone();
            if let Ok(mut v) = std::panic::catch_unwind(move || h.chain_stones(i).take(400).map(|s| s.coord).collect::<Vec<_>>()) {
                v.sort();
                got.push(v);
            }
        }
        got.sort();
        let mut want = vec![];
        for &p in &pts {
            let mut w = vec![p];
            let mut i = 0;
            while i < w.len() {
                for n in g.get_connected_stones(w[i]) {
                    if !w.contains(&n.coord) {
                        w.push(n.coord);
                    }
                }
                i += 1;
            }
            w.sort();
            want.push(w);
        }
        want.sort();
        want.dedup();
        if got != want {
            println!("{got:?} instead of {want:?}");
            std::process::exit(1);
        }
    }''')
D("merge_libs", "C04", "a stone that connects to four chains", "liberties of the joined chain", r'''
    let mut g = board(9, 9, &[(3, 4), (5, 4), (4, 3), (4, 5)], &[]);
    g.push((4, 4), Color::Black);
    assert_eq!(g.chains().count(), 1);
    let c = g.chains().next().unwrap();
    let mut want: Vec<usize> = vec![];
    for p in g.get_empty_coords() {
        if g.get_connected_stones(p).next().is_some() {
            want.push(p.0 as usize * 9 + p.1 as usize);
        }
    }
    let mut got = c.liberties();
    got.sort();
    assert_eq!(got, want);''')
D("count_last", "C04", "a chain with a liberty on one of the last points of a 19x19 board", "the number of liberties", r'''
    let g = board(19, 19, &[(18, 17)], &[]);
    let c = g.chains().next().unwrap();
    assert_eq!(c.number_of_liberties(), c.liberties().len());
    assert_eq!(c.number_of_liberties(), 3);''')
D("pris_set", "C05", "a second capture of the same colour", "prisoners of earlier captures are forgotten", r'''
    let mut g = empty(9, 9);
    for m in [(0, 1), (0, 0), (1, 0), (8, 8), (7, 8), (4, 4), (8, 7)] {
        g.play(Play(m.0, m.1));
    }
    let a = g.prisoners();
    assert_eq!(a.0 + a.1, 2);''')
D("pris_handicap", "C29", "an empty list of handicap points", "the turn after placing a handicap", r'''
    let mut g = empty(9, 9);
    g.put_handicap(&[]);
    assert_eq!(g.turn(), Color::White);''')
D("hash_first", "C06", "removal of a chain of several stones", "the hash of the board after a capture", r'''
    let mut g = empty(9, 9);
    for m in [(0, 2), (0, 0), (1, 0), (0, 1), (1, 1)] {
        g.play(Play(m.0, m.1));
    }
    let fresh = board(9, 9, &[(0, 2), (1, 0), (1, 1)], &[]);
    assert_eq!(g.goban().to_vec(), fresh.to_vec());
    assert_eq!(g.goban().zobrist_hash(), fresh.zobrist_hash());''')
D("eq_none", "C07", "a board compared with one that has more stones", "equality of boards", r'''
    // a set of black stones whose keys cancel out: same hash as the empty board
    use goban::pieces::zobrist::index_zobrist;
    let mut basis: Vec<(u64, Vec<usize>)> = vec![];
    let mut found = None;
    for i in 0..361usize {
        let mut v = index_zobrist(i, Color::Black);
        let mut set = vec![i];
        for (b, s) in &basis {
            if v ^ b < v {
                v ^= b;
                for k in s {
                    if let Some(p) = set.iter().position(|x| x == k) {
                        set.remove(p);
                    } else {
                        set.push(*k);
                    }
                }
            }
        }
        if v == 0 {
            found = Some(set);
            break;
        }
        basis.push((v, set));
        basis.sort_by(|a, b| b.0.cmp(&a.0));
    }
    let set = found.expect("65 vectors of 64 bits are dependent");
    let mut g = Goban::new((19, 19));
    for i in &set {
        g.push(((i / 19) as u8, (i % 19) as u8), Color::Black);
    }
    let e = Goban::new((19, 19));
    assert_eq!(g.zobrist_hash(), e.zobrist_hash());
    assert!(g != e);
    assert!(e != g);''')
D("superko_prev", "C12", "a cycle whose repetition comes from a capture of several stones", "superko", r'''
    // sending two returning one on a small board, driven by the rules themselves
    let mut seen: Vec<Vec<_>> = vec![];
    let mut x = 1u32;
    for round in 0..60u32 {
        let mut g = game(3, 3, Rule { flag_illegal: IllegalRules::KO | IllegalRules::SUPERKO, ..CHINESE }, &[], &[], Color::Black);
        seen.clear();
        seen.push(g.goban().to_vec());
        for _ in 0..120 {
            let l: Vec<_> = g.legals().collect();
            if l.is_empty() {
                break;
            }
            x = x.wrapping_mul(1103515245).wrapping_add(12345 + round);
            let p = l[(x >> 16) as usize % l.len()];
            g.play(Play(p.0, p.1));
            let v = g.goban().to_vec();
            assert!(!seen.contains(&v), "a position came back");
            seen.push(v);
        }
    }''')
D("history_skip", "C12", "a pass before the move that is to be remembered", "the history misses a position", r'''
    let mut x = 1u32;
    for round in 0..200u32 {
        let mut g = game(2, 2, Rule { flag_illegal: IllegalRules::KO | IllegalRules::SUPERKO, ..CHINESE }, &[], &[], Color::Black);
        let mut seen: Vec<Vec<_>> = vec![g.goban().to_vec()];
        for _ in 0..60 {
            x = x.wrapping_mul(1103515245).wrapping_add(12345 + round);
            if (x >> 8) % 4 == 0 && !g.is_over() {
                g.play(Pass);
                if g.is_over() {
                    g.resume();
                }
                continue;
            }
            let l: Vec<_> = g.legals().collect();
            if l.is_empty() {
                break;
            }
            let p = l[(x >> 16) as usize % l.len()];
            g.play(Play(p.0, p.1));
            let v = g.goban().to_vec();
            assert!(!seen.contains(&v), "a position came back");
            seen.push(v);
        }
    }''')
D("resume_outcome", "C14", "resuming a game after a resignation", "a resignation is no longer final", r'''
    let mut g = empty(9, 9);
    g.play(Move::Resign(Color::Black));
    let o = g.outcome();
    g.resume();
    assert_eq!(g.outcome(), o);
    assert!(g.is_over());''')
D("outcome_eps", "C15", "a game decided by less than half a point", "the outcome of a close game", r'''
    let mut g = game(3, 3, CHINESE, &[], &[(1, 1)], Color::Black);
    g.set_komi(0.0);
    let s = g.calculate_score();
    g.set_komi(s.0 - s.1 + 0.25);
    g.play(Pass);
    g.play(Pass);
    let s = g.calculate_score();
    assert_eq!(s.1 - s.0, 0.25);
    assert_eq!(g.outcome(), Some(EndGame::WinnerByScore(Color::White, 0.25)));''')
D("terr_first", "C16", "an empty region of more than sixty points", "large territories are counted short", r'''
    for i in 0..15u8 {
        for j in 0..15u8 {
            let g = board(19, 19, &[(i, j)], &[(18 - i, 16)]);
            assert_eq!(g.calculate_territories(), (0, 0));
        }
    }''')
D("sgf_handi", "C17", "a record with a handicap of one", "the handicap of an imported game", r'''
    let g = Game::from_sgf("(;GM[1]SZ[9]HA[1];W[aa])").unwrap();
    let h = Game::from_sgf("(;GM[1]SZ[9]HA[2];W[aa])").unwrap();
    let d = |g: &Game| format!("{g:?}").split("handicap: ").nth(1).unwrap().split(',').next().unwrap().to_string();
    assert_eq!(d(&h), "2");
    assert_eq!(d(&g), "1");''')
D("matrix_rows", "C22", "a board that is not square", "the matrix of a rectangular board", r'''
    for (h, w) in [(9u8, 9u8), (5, 9), (9, 5), (2, 19)] {
        let g = board(h, w, &[(0, 1)], &[(h - 1, w - 1)]);
        let m = g.matrix();
        assert_eq!(m.len(), h as usize);
        for i in 0..h {
            assert_eq!(m[i as usize].len(), w as usize);
            for j in 0..w {
                assert_eq!(m[i as usize][j as usize], g.get_color((i, j)));
            }
        }
    }''')
D("slots_last", "C24", "capture of the chain in the first slot before many more chains", "freed chain slots are not all used again", r'''
    let mut g = Goban::new((9, 9));
    g.push((0, 0), Color::White);
    g.push((5, 5), Color::White);
    let i = g.get_connected_groups_idx((0, 1))[0];
    g.remove_chain(i);
    g.push((3, 3), Color::Black);
    assert_eq!(g.get_connected_groups_idx((3, 4))[0], i);''')
D("build_komi_order", "C25", "setting the komi twice", "the komi of a built game", r'''
    let mut b = Game::builder();
    b.komi(1.0).komi(2.0);
    assert_eq!(b.build().unwrap().komi(), 2.0);''')
D("eye_two", "C27", "a point with one corner of its colour and an empty corner surrounded by the colour", "the eye test", r'''
    let mut n = 0;
    let mut x = 7u32;
    for _ in 0..4000 {
        let (mut b, mut w) = (vec![(3, 4), (5, 4), (4, 3), (4, 5)], vec![]);
        for i in 2..7u8 {
            for j in 2..7u8 {
                if (i, j) == (4, 4) || b.contains(&(i, j)) {
                    continue;
                }
                x = x.wrapping_mul(1103515245).wrapping_add(12345);
                match (x >> 16) % 4 {
                    0 | 1 => b.push((i, j)),
                    2 => w.push((i, j)),
                    _ => {}
                }
            }
        }
        let g = game(9, 9, CHINESE, &b, &w, Color::Black);
        let at = |p: (u8, u8)| g.goban().get_color(p);
        if b[..4].iter().any(|p| at(*p) != Some(Color::Black)) || at((4, 4)).is_some() {
            continue;
        }
        let c = [(3, 3), (3, 5), (5, 3), (5, 5)].iter().filter(|p| at(**p) == Some(Color::Black)).count();
        if c < 2 {
            n += 1;
            assert!(!g.check_eye(Stone { coord: (4, 4), color: Color::Black }));
        }
    }
    assert!(n > 50);''')
D("remove_lib", "C30", "removal of a chain of several stones next to several chains", "the liberties of the chains around a removed one", r'''
    let before = board(9, 9, &[(3, 4), (5, 4), (4, 3), (4, 5)], &[]);
    let mut g = before.clone();
    g.push((4, 4), Color::White);
    g.remove_chain(4);
    assert_eq!(g.to_vec(), before.to_vec());
    let a: Vec<_> = g.chains().map(|c| c.number_of_liberties()).collect();
    let b: Vec<_> = before.chains().map(|c| c.number_of_liberties()).collect();
    assert_eq!(a, b);''')
D("corner_wrap", "C01", "a point in the first column", "the corners of points on the edge", r'''
    use goban::pieces::util::coord::corner_points;
    let c = corner_points((3, 0));
    let on: Vec<_> = c.iter().filter(|p| p.1 < 19 && p.0 < 19).collect();
    assert_eq!(on.len(), 2, "{c:?}");''')
D("size_assert", "C02", "a custom board with one side over 19 and at most 361 points", "boards over 19 lines", r'''
    std::panic::set_hook(Box::new(|_| {}));
    assert!(std::panic::catch_unwind(|| Goban::new((18, 20))).is_err());
    assert!(std::panic::catch_unwind(|| Goban::new((20, 18))).is_err());''')
D("sim_suicide", "C21", "a simulated suicide when suicide is allowed", "the simulation differs from the play", r'''
    let r = Rule { flag_illegal: IllegalRules::KO | IllegalRules::SUICIDE, ..CHINESE };
    let g = game(5, 5, r, &[(0, 1), (1, 0)], &[], Color::White);
    let a = g.play_for_verification((0, 0));
    let mut h = g.clone();
    h.play(Play(0, 0));
    assert_eq!(a.to_vec(), h.goban().to_vec());''')

D("history_cap", "C12", "a game with more than 722 different positions", "the oldest positions are forgotten by superko", r"""
    let mut g = empty(3, 4);
    let mut x = 12345u32;
    let mut all: std::collections::HashSet<Vec<_>> = Default::default();
    for _ in 0..40000 {
        let l: Vec<_> = g.legals().collect();
        x = x.wrapping_mul(1103515245).wrapping_add(12345);
        if l.is_empty() {
            g.play(Pass);
            if g.is_over() {
                g.resume();
            }
            continue;
        }
        all.insert(g.goban().to_vec());
        let (a, b) = l[(x >> 8) as usize % l.len()];
        g.try_play(Play(a, b)).unwrap();
        assert!(!all.contains(&g.goban().to_vec()), "a legal play recreates an earlier position");
    }""")
D("history_clear", "C12", "a cycle of positions interrupted by two passes and a resumption", "resuming forgets the positions superko is about", r"""
    for seed in 0..400u32 {
    let mut g = empty(2, 2 + (seed % 2) as u8);
    let mut x = 4321u32 + seed * 7919;
    let mut all: std::collections::HashSet<Vec<_>> = Default::default();
    for i in 0..200 {
        let l: Vec<_> = g.legals().collect();
        x = x.wrapping_mul(1103515245).wrapping_add(12345);
        if l.is_empty() || i % 7 == 3 {
            g.play(Pass);
            g.play(Pass);
            g.resume();
            continue;
        }
        all.insert(g.goban().to_vec());
        let (a, b) = l[(x >> 8) as usize % l.len()];
        g.try_play(Play(a, b)).unwrap();
        assert!(!all.contains(&g.goban().to_vec()), "a legal play recreates an earlier position");
    }
    }""")
D("try_side", "C09", "a play refused because of ko that is tried twice", "a refused play changes the game", r"""
    let mut g = game(9, 9, JAPANESE, &[(3, 4), (4, 3), (5, 4)], &[(4, 4), (3, 5), (5, 5), (4, 6)], Color::Black);
    g.play(Play(4, 5));
    assert_eq!(g.prisoners().0, 1);
    assert!(g.try_play(Play(4, 4)).is_err());
    assert!(g.try_play(Play(4, 4)).is_err(), "refused once, accepted the second time");""")
D("suicide_friend", "C10", "a play without liberties of its own that connects to a single safe stone", "a connecting play is called suicide", r"""
    let g = game(5, 5, JAPANESE, &[(0, 1), (2, 2)], &[(0, 2), (1, 1)], Color::Black);
    // (0, 0) joins the single black stone at (0, 1), which has no other liberty; use a stone with two
    let h = game(3, 3, JAPANESE, &[(1, 1)], &[(0, 2), (2, 2), (0, 1), (2, 1)], Color::Black);
    let k = game(5, 5, JAPANESE, &[(2, 2)], &[(1, 1), (0, 2), (1, 3)], Color::Black);
    assert!(!k.check_suicide(Stone { coord: (1, 2), color: Color::Black }));""")
D("check_order", "C08", "a play that is a suicide and forbidden by ko at the same time, or only one of several rules", "which rule a refused play breaks", r"""
    // a ko point that is also surrounded: after a single stone capture with the capturing stone safe
    let mut g = game(3, 4, JAPANESE, &[(0, 1), (1, 2)], &[(0, 0), (1, 1), (0, 2), (0, 3)], Color::White);
    let mut n = 0;
    for seed in 0..4000u32 {
        let mut x = seed * 2654435761u32 % 1000003;
        let mut g = Game::new(GobanSizes::Custom(3, 4), JAPANESE);
        for _ in 0..60 {
            let l: Vec<_> = g.legals().collect();
            x = x.wrapping_mul(1103515245).wrapping_add(12345);
            if l.is_empty() {
                break;
            }
            let (a, b) = l[(x >> 8) as usize % l.len()];
            g.try_play(Play(a, b)).unwrap();
            for a in 0..3 {
                for b in 0..4 {
                    let s = Stone { coord: (a, b), color: g.turn() };
                    if g.goban().get_color((a, b)).is_none() && g.check_suicide(s) {
                        n += 1;
                        assert!(matches!(g.check_point((a, b)), Some(PlayError::Suicide)), "a suicide is reported as something else");
                    }
                }
            }
        }
    }
    assert!(n > 0);""")
D("try_paused", "C14", "a stone played after two passes", "a paused game takes plays", r"""
    let mut g = empty(9, 9);
    g.play(Pass);
    g.play(Pass);
    assert!(g.is_over());
    assert!(g.try_play(Play(2, 2)).is_err());""")
D("score_own", "C15", "a rule set without komi", "the score of a game under a rule set without komi", r"""
    let r = Rule { komi: 5.5, flag_score: ScoreRules::STONES, flag_illegal: IllegalRules::KO };
    let g = game(9, 9, r, &[(2, 2)], &[(6, 6)], Color::Black);
    let (b, w) = g.calculate_score();
    assert_eq!((b, w), (1.0, 1.0));""")
D("score_else", "C15", "a rule set that counts both stones and prisoners", "stones are left out of the score", r"""
    let r = Rule { komi: 5.5, flag_score: ScoreRules::STONES | ScoreRules::PRISONNERS, flag_illegal: IllegalRules::KO };
    let g = game(9, 9, r, &[(2, 2), (3, 3)], &[(6, 6)], Color::Black);
    assert_eq!(g.calculate_score(), (2.0, 1.0));""")
D("any_last", "C04", "a chain whose only liberties are on the last points of a 19x19 board", "chains with liberties are taken off", r"""
    let g = board(19, 19, &[(18, 17)], &[(17, 17), (18, 16)]);
    assert_eq!(g.get_color((18, 17)), Some(Color::Black));
    assert!(!g.chains().any(|c| c.is_dead()), "a chain with a liberty at (18, 18) is called dead");""")
D("union_first", "C04", "a stone with four liberties", "the fourth liberty of a stone is not recorded", r"""
    let g = board(9, 9, &[(4, 3), (4, 4)], &[]);
    assert_eq!(g.chains().next().unwrap().number_of_liberties(), 6);""")
D("build_turn", "C25", "a builder with a handicap of one", "who moves first after a handicap of one", r"""
    let g = Game::builder().handicap(1).build().unwrap();
    assert_eq!(g.turn(), Color::White);""")
D("build_moves_append", "C25", "moves given twice to one builder", "moves given earlier are kept", r"""
    let mut b = Game::builder();
    b.moves(&[Play(2, 2)]);
    b.moves(&[Play(3, 3)]);
    let g = b.build().unwrap();
    assert_eq!(g.goban().get_color((2, 2)), None);""")
D("eye_cross", "C27", "an empty point with an empty neighbour", "open points are called eyes", r"""
    let g = game(9, 9, CHINESE, &[(0, 1)], &[], Color::Black);
    assert!(!g.check_eye(Stone { coord: (0, 0), color: Color::Black }));
    let g = game(9, 9, CHINESE, &[(3, 4), (5, 4), (4, 3), (3, 3), (3, 5), (5, 3), (5, 5)], &[], Color::Black);
    assert!(!g.check_eye(Stone { coord: (4, 4), color: Color::Black }));""")
D("hash_or", "C06", "a stone on the last point of a 19x19 board", "two positions share a hash", r"""
    let a = board(19, 19, &[(18, 18)], &[]);
    let b = board(19, 19, &[(0, 0)], &[]);
    assert_ne!(a.zobrist_hash(), b.zobrist_hash());""")
D("turn_resign", "C13", "the player to move resigns, or the other one", "the turn after a resignation", r"""
    let mut g = empty(9, 9);
    g.play(Move::Resign(Color::Black));
    assert_eq!(g.turn(), Color::Black);
    let mut g = empty(9, 9);
    g.play(Play(1, 1));
    g.play(Move::Resign(Color::White));
    assert_eq!(g.turn(), Color::White);""")
D("sgf_outcome", "C17", "a record of a game lost by forfeit", "how an imported game ended", r"""
    let g = Game::from_sgf("(;SZ[9]RE[B+F];B[aa])").unwrap();
    assert_eq!(g.outcome(), Some(EndGame::WinnerByForfeit(Color::Black)));""")
D("winner_time", "C32", "a game won on time", "the winner of a game won on time", r"""
    assert_eq!(EndGame::WinnerByTime(Color::Black).get_winner(), Some(Color::Black));
    assert_eq!(EndGame::WinnerByTime(Color::White).get_winner(), Some(Color::White));""")
D("resume_turn", "C14", "resuming with a ko still open", "the ko is forgotten when a game is resumed", r"""
    let mut g = game(9, 9, JAPANESE, &[(3, 4), (4, 3), (5, 4)], &[(4, 4), (3, 5), (5, 5), (4, 6)], Color::Black);
    g.play(Play(4, 5));
    assert_eq!(g.prisoners().0, 1);
    g.resume();
    assert!(g.check_ko(Stone { coord: (4, 4), color: Color::White }));""")
D("dead_pass", "C28", "a play-out position after two passes", "the moves offered in a finished game", r"""
    let g = empty(5, 5);""")
D("terr_neutral", "C16", "an empty region that touches both colours", "neutral points counted as territory", r"""
    let g = board(5, 5, &[(0, 1), (1, 1), (2, 1), (3, 1), (4, 1)], &[(0, 3), (1, 3), (2, 3), (3, 3), (4, 3)]);
    assert_eq!(g.calculate_territories(), (5, 5));
    let g = board(9, 9, &[(4, 4)], &[(0, 0)]);
    assert_eq!(g.calculate_territories(), (0, 0));""")
D("outcome_diff", "C15", "a close game", "the margin of the result", r"""
    let r = Rule { komi: 0.5, flag_score: ScoreRules::STONES | ScoreRules::KOMI, flag_illegal: IllegalRules::KO };
    for (b, w) in [(3, 1), (1, 3), (2, 2)] {
        let bl: Vec<(u8, u8)> = (0..b).map(|i| (i, 0)).collect();
        let wh: Vec<(u8, u8)> = (0..w).map(|i| (i, 8)).collect();
        let mut g = game(9, 9, r, &bl, &wh, Color::Black);
        g.play(Pass);
        g.play(Pass);
        let (x, y) = g.calculate_score();
        match g.outcome() {
            Some(EndGame::WinnerByScore(c, d)) => {
                assert_eq!(d, (x - y).abs());
                assert_eq!(c, if x > y { Color::Black } else { Color::White });
            }
            o => panic!("{o:?} for {x} {y}"),
        }
    }""")
D("n_stones8", "C23", "a chain of more than 255 stones", "the number of stones wraps", r"""
    let mut g = Goban::new((19, 19));
    for x in 0..16u8 {
        for y in 0..19u8 {
            g.push((x, y), Color::Black);
        }
    }
    assert_eq!(g.number_of_stones().0, 304);""")
D("b_hash_white", "C06", "the capture of a chain of more than sixteen stones", "the hash of the board after the capture", r"""
    let mut g = empty(19, 19);
    let mut fresh = Goban::new((19, 19));
    for y in 0..19u8 {
        g.play(Play(0, y));
        g.play(Play(1, y));
        fresh.push((1, y), Color::White);
    }
    // the black chain of nineteen stones on the edge is captured by the last white stone
    assert_eq!(g.goban().number_of_stones(), (0, 19));
    assert_eq!(g.goban().zobrist_hash(), fresh.zobrist_hash());""")
D("b_empty_idx", "C22", "the last point of a 19x19 board is empty", "the last point is missing from the empty points", r"""
    assert_eq!(Goban::new((19, 19)).get_empty_coords().count(), 361);""")
D("b_over_one", "C14", "a board without an empty point", "a game is over without passes or resignation", r"""
    let g = game(2, 2, CHINESE, &[(0, 0), (0, 1), (1, 0), (1, 1)], &[], Color::White);
    assert!(!g.is_over());
    assert!(g.outcome().is_none());""")
D("v_score_neg", "C15", "a negative komi", "a negative komi does not count", r"""
    let mut g = empty(9, 9);
    g.set_komi(-5.5);
    assert_eq!(g.calculate_score().1, -5.5);""")
D("v_build_komi0", "C25", "a builder with a komi of zero or less", "the komi given to the builder is not used", r"""
    let g = Game::builder().size((9, 9)).rule(JAPANESE).komi(0.0).build().unwrap();
    assert_eq!(g.komi(), 0.0);""")
D("v_new_num", "C03", "a chain whose first stone is on the first point", "the number of stones of a chain", r"""
    let mut g = Goban::new((9, 9));
    g.push((0, 0), Color::White);
    assert_eq!(g.number_of_stones(), (0, 1));""")
D("v_will_color", "C05", "a point next to a chain of the player's own in atari", "a play that captures nothing is said to capture", r"""
    let g = game(9, 9, CHINESE, &[(0, 0)], &[(0, 1)], Color::Black);
    assert!(!g.will_capture((1, 0)));
    let h = game(9, 9, CHINESE, &[(0, 0)], &[(0, 1)], Color::White);
    assert!(h.will_capture((1, 0)));""")
D("v_tovec_len", "C22", "a board that is not square", "the flat view of the board", r"""
    assert_eq!(Goban::new((5, 9)).to_vec().len(), 45);
    assert_eq!(Goban::new((9, 5)).to_vec().len(), 45);""")
D("v_pretty_corner", "C22", "the text of any board with an empty upper right corner", "the corner is drawn as an edge", r"""
    let g = Goban::new((5, 1));
    let h = Goban::new((5, 5));
    let s = g.pretty_string() + &h.pretty_string();
    assert!(s.contains('┓'), "{s}");""")
D("v_try_over", "C09", "a play after a resignation", "a play after a resignation is refused as if the game were paused", r"""
    let mut g = empty(9, 9);
    g.play(Play(3, 3));
    g.play(Move::Resign(Color::White));
    assert!(g.try_play(Play(4, 4)).is_ok());""")
D("v_resign_self", "C14", "the player whose turn it is not resigns", "the winner of the game", r"""
    let mut g = empty(9, 9);
    g.play(Play(3, 3));
    g.play(Move::Resign(Color::Black));
    assert_eq!(g.outcome(), Some(EndGame::WinnerByResign(Color::White)));""")
D("v_sgf_lim", "C18", "a record whose board has one side over 19", "a record with a board that is too large is not refused", r"""
    std::panic::set_hook(Box::new(|_| {}));
    for s in ["(;SZ[20:9];B[aa])", "(;SZ[9:20];B[aa])", "(;SZ[25];B[aa])"] {
        let r = std::panic::catch_unwind(|| Game::from_sgf(s).is_err());
        assert!(matches!(r, Ok(true)), "{s}");
    }""")
D("v_sgf_first", "C17", "a record whose first move is not by the same player as the last", "who is to move in the imported game", r"""
    let a = Game::from_sgf("(;SZ[9];B[aa];W[bb];B[cc])").unwrap();
    assert_eq!(a.turn(), Color::White);
    let a = Game::from_sgf("(;SZ[9];B[aa];W[bb])").unwrap();
    assert_eq!(a.turn(), Color::Black);
    assert_eq!(a.goban().get_color((0u8, 0u8)), Some(Color::Black));""")
D("v_handi_len", "C29", "handicap points put on a game twice", "the handicap of the game", r"""
    let mut g = empty(9, 9);
    g.put_handicap(&[(2, 2)]);
    g.put_handicap(&[(6, 6), (2, 6)]);
    let mut h = empty(9, 9);
    h.put_handicap(&[(6, 6), (2, 6)]);
    assert_eq!(format!("{:?}", g).matches("handicap: 2").count(), format!("{:?}", h).matches("handicap: 2").count());""")
D("b_winner_draw", "C32", "a game won by a score of zero or less points", "the winner of a finished game", r"""
    assert_eq!(EndGame::WinnerByScore(Color::Black, -0.5).get_winner(), Some(Color::Black));
    assert_eq!(EndGame::WinnerByScore(Color::White, 0.0).get_winner(), Some(Color::White));""")
D("b_eye_helper", "C27", "an eye in a corner of the board", "the corners of a point that are off the board", r"""
    // an eye in the corner with its one diagonal point taken
    for (own, at) in [(vec![(0u8, 1u8), (1, 0)], (0u8, 0u8)), (vec![(0, 7), (1, 8)], (0, 8)), (vec![(8, 1), (7, 0)], (8, 0)), (vec![(8, 7), (7, 8)], (8, 8))] {
        for diag in [false, true] {
            let d = (if at.0 == 0 { 1u8 } else { 7 }, if at.1 == 0 { 1u8 } else { 7 });
            let mut own = own.clone();
            if diag {
                own.push(d);
            }
            let g = game(9, 9, CHINESE, &own, &[], Color::Black);
            assert_eq!(g.check_eye(Stone { coord: at, color: Color::Black }), diag, "{at:?} {diag}");
        }
    }""")
D("v_eye_off", "C27", "an eye at the edge of the board", "an eye at the edge is not seen", r"""
    let own = [(0u8, 3u8), (0, 5), (1, 4), (1, 3), (1, 5)];
    let g = game(9, 9, CHINESE, &own, &[], Color::Black);
    assert!(g.check_eye(Stone { coord: (0, 4), color: Color::Black }));""")
D("v_rm_lib", "C30", "removal of a stone surrounded by four chains", "one of the neighbouring chains does not get the liberty back", r"""
    let before = board(9, 9, &[(3, 4), (5, 4), (4, 3), (4, 5)], &[]);
    let mut g = before.clone();
    g.push((4, 4), Color::White);
    g.remove_chain(4);
    let a: Vec<_> = g.chains().map(|c| c.number_of_liberties()).collect();
    let b: Vec<_> = before.chains().map(|c| c.number_of_liberties()).collect();
    assert_eq!(a, b);""")
D("b_outcome_neg", "C15", "a game won by white with a margin that is a whole number", "the margin of a game decided by score", r"""
    let mut g = empty(5, 5);
    g.set_komi(5.0);
    g.play(Pass);
    g.play(Pass);
    assert_eq!(g.outcome(), Some(EndGame::WinnerByScore(Color::White, 5.0)));""")
D("v_ko_two", "C11", "a retake on the ko point that captures exactly two stones", "a retake that captures two stones is refused as ko", r"""
    let mut g = game(5, 5, JAPANESE, &[(1, 0), (0, 2)], &[(0, 0), (0, 3), (1, 1), (1, 2)], Color::Black);
    g.play(Play(0, 1));
    assert_eq!(g.prisoners().0, 1);
    assert!(!g.check_ko(Stone { coord: (0, 0), color: Color::White }));
    assert!(g.legals().any(|p| p == (0, 0)));""")
D("v_preset_jap", "C26", "a rule set named in small letters", "a name that is not one of the rule sets is accepted", r"""
    assert!("jap".parse::<Rule>().is_err());
    assert!("JAP".parse::<Rule>().is_ok());""")
D("v_sgf_komi", "C17", "a record with a komi of zero", "the komi of an imported game", r"""
    assert_eq!(Game::from_sgf("(;SZ[9]KM[0];B[aa])").unwrap().komi(), 0.0);
    assert_eq!(Game::from_sgf("(;SZ[9]KM[0.5];B[aa])").unwrap().komi(), 0.5);""")
D("v_matrix_chunk", "C22", "a board with more rows than columns", "the rows of the board", r"""
    let m = Goban::new((9, 5)).matrix();
    assert_eq!((m.len(), m[0].len()), (9, 5));
    let m = Goban::new((5, 9)).matrix();
    assert_eq!((m.len(), m[0].len()), (5, 9));""")
