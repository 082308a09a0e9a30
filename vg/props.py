"""The properties: text (properties.jsonl), what decides them (checks), what they are anchored to.

scope entries:
  ("closure", regex)            every function reachable from the matching functions
  ("fn", regex, comp regex)     only the matching functions, only these components of their effect
skip: (function regex, component regex) differences that do not concern the property
rules: structural rules (rules.py) that decide a clause of the property directly
"""

G = "src/pieces/goban.rs"
GR = "src/pieces/group.rs"
U = "src/pieces/util.rs"
Z = "src/pieces/zobrist.rs"
T = "src/pieces/territory.rs"
ST = "src/pieces/stones.rs"
GA = "src/rules/game.rs"
B = "src/rules/game_builder.rs"
M = "src/rules/mod.rs"
S = "src/rules/sgf_bridge.rs"
D = "src/rules/dead_stones.rs"

HASHC = (r".", r"zobrist_hash")
HIST = (r".", r"\.history")
PRIS = (r".", r"\.prisoners")
KO = (r".", r"ko_point")

PROPS = []


def P(id, title, statement, over, text, tests, files, mech, scope=(), skip=(), rules=(), state=(), observe=()):
    PROPS.append(dict(id=id, title=title, statement=statement, over=over, text=text, tests=tests, files=files,
                      mech=mech, scope=list(scope), skip=list(skip), rules=list(rules), state=list(state), observe=list(observe)))


P("C01", "Coordinates and board indexes correspond one to one on every board size",
  "On every board of height and width 1 to 19, also a rectangular one, two different points never share an index and converting a point to an index and back gives the same point. "
  "The points reported as adjacent to a point are exactly its up to four orthogonal neighbours inside the board (and its corners the four diagonal ones), and a coordinate is reported valid exactly when its line is below the height and its column below the width.",
  ["inputs", "configurations"], "every board size h x w with 1 <= h, w <= 19, every point of it",
  "the unit tests convert a few points on 9x9 and 19x19 square boards only; 361 sizes times up to 361 points are never enumerated and rectangular boards are not touched",
  [U, G], [("row-major conversions", "src/pieces/util.rs coord::{two_to_1dim, one_to_2dim, is_coord_valid}"), ("neighbour lists", "src/pieces/util.rs coord::{neighbor_coords, valid_coords, corner_points}")],
  scope=[("closure", r"util::coord::|coord::Into|neighbors_(coords|idx)$")],
  rules=[], observe=["Goban::get_color", "Goban::get_connected_points", "Goban::get_liberties"])

P("C02", "Boards over 19 lines and stones outside the board are refused, never aliased",
  "A board larger than 19 in either direction cannot be created by any constructor: the attempt panics or returns an error, and never yields a silently truncated board. "
  "Putting a stone on a coordinate outside the board panics, or returns an error from the builder, instead of changing some other point.",
  ["inputs", "configurations"], "every requested size and every coordinate (0..255, 0..255) on every board size",
  "no test uses an oversized custom board or an off-board coordinate",
  [G, M, B, S], [("size assertion", "src/pieces/goban.rs Goban::new"), ("size conversion", "src/rules/mod.rs From<GobanSizes> for Size"), ("coordinate assertion", "src/pieces/goban.rs push_wth_feedback"), ("builder validation", "src/rules/game_builder.rs build_inner, check_free_point")],
  scope=[("fn", r"goban::Goban::(new|push|push_stone|push_many|push_wth_feedback)$", r"panics|size|all"), ("fn", r"From<goban::rules::GobanSizes>|GobanSizes as .*From<usize>", r"."), ("fn", r"Game::(new|play)$", "panics|all"),
         ("closure", r"check_free_point$|is_coord_valid$"), ("fn", r"build_inner$", r"ret|panics|all")],
  rules=[], observe=["Goban::new", "Game::new", "Goban::push", "GameBuilder::build"])

P("C03", "Placing a stone joins exactly the adjacent chains of its colour",
  "After a stone is put on an empty point, that point and all stones of the adjacent chains of the same colour form one chain with one identifier, holding every one of those stones once and no other, and every other point of the board keeps its colour and its chain. "
  "The stone count of the chain is the number of its stones, and the list of its stones visits each exactly once.",
  ["inputs", "histories"], "every position reachable by placing and removing stones, every empty point, both colours, every board size",
  "tests replay a handful of games and look at a few chains; the merges of two to four chains in each order of their sizes and indexes are not enumerated",
  [G, GR], [("placement", "src/pieces/goban.rs push_wth_feedback"), ("merge of circular lists", "src/pieces/goban.rs merge_strings, add_stone_to_chain, create_chain, update_chain_indexes_in_board"), ("slots", "src/pieces/group.rs Groups::put_free_spot")],
  scope=[("closure", r"Goban::push$|push_wth_feedback$|Goban::chains$|chain_stones"), ("fn", r"group::CircularGroupIter|Groups as std::ops::Index|iter_stones$", ".")], skip=[HASHC, (r".", "^panics$")],
  state=[("chains / board / next_stone", "the chains, the chain of each point and the circular list of its stones", G)], observe=["Goban::push", "Goban::chains", "Goban::chain_stones", "Goban::get_color"])

P("C04", "Every chain knows exactly its liberties",
  "The liberties recorded for a chain are at all times exactly the empty points orthogonally adjacent to one of its stones: placing a stone takes its point away from every adjacent chain and gives the new chain the empty neighbours, merging unites the sets, and removing a chain gives its points back to every neighbouring chain. "
  "The count, the listing, the membership test, atari (exactly one liberty) and dead (none) all describe that same set.",
  ["inputs", "histories"], "every sequence of placements and removals on every board size; every point index 0..360",
  "tests count liberties in a few positions; bits of the 361-point set other than those sampled are never exercised",
  [GR, G], [("liberty bit set", "src/pieces/group.rs set, get, merge, count_ones, iter_ones, any"), ("updates", "src/pieces/goban.rs push_wth_feedback, remove_chain, create_chain, merge_strings")],
  scope=[("closure", r"group::Group::|pieces::group::(any|count_ones|get|iter_ones|merge|set)|Goban::(remove_chain|push_wth_feedback|push|get_liberties|has_liberties)$")],
  skip=[HASHC], observe=["Group::liberties", "Group::number_of_liberties", "Group::is_atari", "Group::is_dead"])

P("C05", "A move captures exactly the opposing chains it leaves without liberties",
  "After a move is played, the stones that left the board are exactly those of the opposing chains that the placed stone deprived of their last liberty, and, only when none of them was captured or it still has no liberty and suicide is permitted, the player's own chain. "
  "Each removed white stone adds one to the first prisoner counter and each removed black stone one to the second, and no other play, pass or query changes the counters.",
  ["inputs", "histories"], "every game history, both colours, every number of chains captured at once",
  "tests check the prisoners of two or three captures; multiple simultaneous captures and suicides of whole chains are not reached",
  [GA, G], [("dead neighbours", "src/pieces/goban.rs push_wth_feedback"), ("removal and credit", "src/pieces/goban.rs remove_captured_stones_aux, remove_chain; src/rules/game.rs remove_captured_stones")],
  scope=[("closure", r"remove_captured_stones|Goban::remove_chain$|push_wth_feedback$"), ("fn", r"game::Game::play$", r"prisoners|goban|all"), ("fn", r"Game::(prisoners|will_capture)$", ".")],
  skip=[HASHC, (r"remove_captured_stones_aux$", r"^ret\.1"), KO, HIST], state=[("prisoners", "(white stones removed, black stones removed)", GA)], observe=["Game::play", "Game::prisoners"])

P("C06", "The position hash is the XOR of the keys of the stones on the board",
  "At all times the hash of a board equals the XOR over its stones of the key of (point, colour): it depends only on the stones, not on the order of the moves, the captures on the way, or chain bookkeeping, and it is zero for the empty board. "
  "No two keys are equal or zero, so positions that differ in one stone never share a hash, and hashing a board writes exactly this hash.",
  ["inputs", "histories"], "every history of placements and removals; every pair of (point, colour) keys",
  "tests compare the hash of a few short sequences; 722 keys and removal paths are not checked",
  [G, Z], [("incremental toggle", "src/pieces/goban.rs push_wth_feedback, remove_chain"), ("key table", "src/pieces/zobrist.rs ZOBRIST, index_zobrist")],
  scope=[("closure", r"index_zobrist$|Goban::zobrist_hash$|Goban as std::hash::Hash"), ("fn", r"push_wth_feedback$|remove_chain$|Goban::new$", r"zobrist_hash|all"), ("fn", r"Goban::(push|push_stone|push_many)$", r"zobrist_hash|all")],
  rules=["zobrist_table"], state=[("zobrist_hash", "XOR of the keys of the stones", G)], observe=["Goban::zobrist_hash"])

P("C07", "Board equality is equality of size and stones, and agrees with hashing",
  "Two boards are equal exactly when they have the same size and the same colour on every point; equal boards have equal hashes, and equality does not depend on how the position was reached. "
  "A copy of a board is equal to it.",
  ["inputs", "histories"], "every pair of boards of every size", "tests compare only boards reached by the same or very short sequences",
  [G], [("equality", "src/pieces/goban.rs PartialEq for Goban"), ("hash", "src/pieces/goban.rs Hash for Goban")],
  scope=[("closure", r"(Goban|Groups?) as std::(cmp::PartialEq|hash::Hash|clone::Clone)"), ("fn", r"push_wth_feedback$|remove_chain$", r"zobrist_hash|all")],
  rules=[], observe=["Goban == Goban", "Game::history lookups"])

P("C08", "The listed legal moves are exactly the moves that would be accepted",
  "For every game in progress, a point appears in the list of legal moves exactly when playing it with verification succeeds, and the list for a chosen set of rules contains a point exactly when the check under these rules reports nothing; each point appears once. "
  "A point is reported occupied before any other reason, then suicide, ko, eye filling and superko, each only if its rule is in force.",
  ["inputs", "histories", "configurations"], "every position, player, set of rule flags and point", "tests count legal moves in a few positions under the default rules",
  [GA, G], [("filter", "src/rules/game.rs legals, legals_by, check_point, check_point_by"), ("guard", "src/rules/game.rs try_play"), ("candidates", "src/rules/game.rs pseudo_legals; src/pieces/goban.rs get_empty_coords")],
  scope=[("closure", r"game::Game::(legals|legals_by|check_point|check_point_by|pseudo_legals|pseudo_legals_vec)$"), ("fn", r"Game::try_play$", r"ret|all")],
  skip=[(r"push_wth_feedback$", r"panics")], rules=["legals_agree"], observe=["Game::legals", "Game::legals_by", "Game::try_play", "Game::check_point"])

P("C09", "A refused move leaves the game exactly as it was",
  "When playing with verification returns an error, nothing observable about the game has changed: board, turn, passes, prisoners, ko, history and result are the same as before. "
  "The error tells the actual reason: paused after two passes, point occupied, or the reason the point check reports.",
  ["inputs", "histories"], "every game state and every move that is refused", "tests assert on the error value of two refusals and not on the state afterwards",
  [GA], [("verification before play", "src/rules/game.rs try_play")],
  scope=[("fn", r"Game::try_play$", ".")], rules=["err_pure"], observe=["Game::try_play"])

P("C10", "A move is suicide exactly when it leaves its own chain without liberties",
  "A placement is reported as suicide exactly when the point has no empty neighbour, every adjacent chain of the player's colour has no other liberty, and no adjacent opposing chain is in atari. "
  "It is forbidden exactly when the suicide flag is set in the rules, and otherwise the chain is removed and counted for the opponent.",
  ["inputs", "histories", "configurations"], "every position, point, player and rule set", "tests cover two suicide shapes",
  [GA, G], [("verdict", "src/rules/game.rs check_suicide"), ("removal", "src/pieces/goban.rs remove_captured_stones_aux")],
  scope=[("closure", r"Game::check_suicide$"), ("fn", r"remove_captured_stones", r"ret|chains|all"), ("fn", r"Game::check_point_by$|Game::(play_for_verification)$", ".")],
  skip=[HASHC], observe=["Game::check_suicide", "Game::check_point", "Game::play"])

P("C11", "Immediate retaking of a single captured stone is ko, and nothing else is",
  "The point forbidden by ko is the point of the only stone captured by the last move when exactly one chain of exactly one stone was captured, and there is none after a pass or after any other play. "
  "Playing there is ko unless it captures a chain of more than one stone; the ban lasts for one move only.",
  ["histories"], "every game history", "one test plays one ko; multi-captures, passes in between and snapback shapes are not covered",
  [GA, G], [("ko point", "src/pieces/goban.rs remove_captured_stones_aux; src/rules/game.rs play"), ("verdict", "src/rules/game.rs check_ko")],
  scope=[("closure", r"Game::check_ko$"), ("fn", r"Game::play$", r"ko_point|all"), ("fn", r"remove_captured_stones_aux$", r"ret|all"), ("fn", r"game::Game::remove_captured_stones$", "ko_point|all"), ("fn", r"check_point_by$", ".")],
  rules=[], state=[("ko_point", "the point that may not be retaken", GA)], observe=["Game::check_ko", "Game::check_point"])

P("C12", "Superko refuses every move that recreates an earlier position",
  "The position before each played move is remembered for the whole game, however long, and under superko a move is refused exactly when the resulting position, after captures, equals the current or any earlier one (or it is a ko). "
  "No remembered position is ever dropped or replaced, and passes and queries do not add one.",
  ["histories"], "every game history of any length, cycles of every length", "tests contain one short cycle; long cycles and many positions are not reached",
  [GA], [("history", "src/rules/game.rs play"), ("verdict", "src/rules/game.rs check_super_ko, play_for_verification"), ("equality", "src/pieces/goban.rs PartialEq, Hash")],
  scope=[("closure", r"Game::check_super_ko$"), ("fn", r"Game::play$", r"history|all"), ("fn", r"Game::(history|resume|put_handicap|new)$", r"history|ret|all"), ("fn", r"check_point_by$", ".")],
  skip=[(r".", r"^panics$")], rules=["history_grows"], state=[("history", "positions before each play", GA)], observe=["Game::check_super_ko", "Game::history"])

P("C13", "Players alternate and passes are counted",
  "Every accepted play and every pass hands the turn to the other player; a play sets the number of consecutive passes to zero and a pass adds one; resigning changes neither. "
  "Placing handicap stones gives the turn to White, a new game starts with Black, and reading the turn never changes it.",
  ["histories"], "every sequence of plays, passes, resignations and resumptions", "tests follow short alternating sequences only",
  [GA, ST], [("turn and passes", "src/rules/game.rs play, resume, put_handicap"), ("opponent", "src/pieces/stones.rs Not for Color")],
  scope=[("fn", r"Game::play$", r"turn|passes|all"), ("fn", r"Game::(new|resume|put_handicap)$", r"turn|passes|all"), ("fn", r"Game::turn$", "."), ("fn", r"Color as std::ops::Not", ".")],
  rules=[], state=[("turn / passes", "player to move and consecutive passes", GA)], observe=["Game::turn"])

P("C14", "A game ends by two consecutive passes or a resignation, and can be resumed",
  "A game is over exactly when a result was recorded or two consecutive passes were made; while it is over by passes verified moves are refused as paused and a further pass is not possible, and resuming makes play possible again without changing anything else. "
  "A resignation makes the opponent of the resigning player the winner by resignation, at once and for good.",
  ["histories"], "every sequence of plays, passes, resignations and resumptions", "tests pass twice once; interleavings with resume, resign and plays are not enumerated",
  [GA, M], [("end of game", "src/rules/game.rs is_over, play, try_play, resume")],
  scope=[("fn", r"Game::(is_over|resume)$", "."), ("fn", r"Game::play$", r"passes|outcome|panics|all"), ("fn", r"Game::try_play$", r"ret|all"), ("fn", r"Game::outcome$", r"ret|all"), ("fn", r"EndGame::get_winner$", ".")],
  rules=[], observe=["Game::is_over", "Game::outcome", "Game::resume", "Game::try_play"])

P("C15", "The outcome and score follow from board, prisoners, komi and scoring rules",
  "The score of each side is its territory plus, as the scoring rules say, its stones on the board and its prisoners, with komi added to White's only; every combination of the scoring flags is honoured. "
  "The outcome of a game ended by passes names the side with the higher score and the positive difference, or a draw when they are equal, and a recorded result is returned unchanged.",
  ["inputs", "configurations"], "every final position, prisoner count, komi and combination of scoring flags", "tests score one or two games under the presets",
  [GA, G, T], [("score", "src/rules/game.rs calculate_score, calculate_score_by"), ("outcome", "src/rules/game.rs outcome"), ("stone count", "src/pieces/goban.rs number_of_stones")],
  scope=[("closure", r"Game::(calculate_score|calculate_score_by|outcome|komi|set_komi)$|number_of_stones$")], skip=[HASHC], rules=[], observe=["Game::calculate_score", "Game::calculate_score_by", "Game::outcome"])

P("C16", "Territory is counted only where one colour alone borders an empty region",
  "An empty point is territory of a colour exactly when the maximal connected empty region holding it touches at least one stone of that colour and none of the other; each such point is counted once, and regions touching both colours or none count for nobody. "
  "The counts are the sizes of the two lists of points.",
  ["inputs"], "every position on every board size", "tests look at two or three positions with simple borders",
  [T], [("regions", "src/pieces/territory.rs get_group_from_point, get_chains_from_stones"), ("borders", "src/pieces/territory.rs get_territories, calculate_territories")],
  scope=[("closure", r"territory::")], observe=["Goban::get_territories", "Goban::calculate_territories"])

P("C17", "An imported SGF record yields the game it describes",
  "Importing a game record uses its size, komi, rules, handicap, setup stones, result and player to move, and plays every move of the main line in order, each on the point the record names (column first, counted from the top left) with tt and empty moves as passes. "
  "The result equals building the same game by hand.",
  ["inputs"], "every well formed record of a game up to 19x19", "tests import two or three records on square boards and check the position of one",
  [S, B], [("properties and moves", "src/rules/sgf_bridge.rs from_sgf"), ("conversions", "src/rules/sgf_bridge.rs From impls")],
  scope=[("fn", r"sgf_bridge::", "."), ("closure", r"GameBuilder::build$|build_inner$|GameBuilder::")], skip=[HASHC],
  rules=[], observe=["Game::from_sgf"])

P("C18", "An SGF record that cannot be honoured gives an error, never a panic",
  "Whatever text is given, importing returns either a game or an error: text that does not parse, records of other games, unsupported rules, unknown players, oversized boards, and stones or moves off the board, on occupied points or after the end all give an error. "
  "None of them panics or yields a game that ignores the problem.",
  ["inputs"], "every input string", "tests import valid records only",
  [S, B], [("error returns", "src/rules/sgf_bridge.rs from_sgf"), ("validation", "src/rules/game_builder.rs build_inner, check_free_point")],
  scope=[("fn", r"sgf_bridge::", "."), ("closure", r"check_free_point$"), ("fn", r"build_inner$|GameBuilder::build$", "ret|panics|all")], skip=[HASHC],
  rules=[], observe=["Game::from_sgf", "GameBuilder::build"])

P("C19", "Queries never change a game or a board, and copies are independent",
  "No operation that takes a game or board by shared reference changes anything observable about it, whatever the number and order of queries, from any number of threads; and a copy shares no state with its original. "
  "Games, boards, chains, rules and builders can be sent to and shared between threads.",
  ["inputs", "histories", "schedules"], "every query, every state, every interleaving of readers", "tests never compare state before and after queries nor use threads",
  [GA, G, GR], [("shared references only", "all pub fn(&self)"), ("owned containers", "src/pieces/goban.rs Goban, src/rules/game.rs Game")],
  scope=[("fn", r"as std::clone::Clone>::clone$", ".")], rules=["no_unsafe", "freeze", "query_sigs"], observe=["all &self methods"])

P("C20", "The same calls always give the same results",
  "Apart from the dead stone estimate, every result depends only on the arguments and the calls made before on the same object: no clock, randomness, environment, file, global mutable state, address or random hash seed influences it. "
  "Replaying the same sequence of operations reproduces the same game, including lists of moves and their order.",
  ["histories", "configurations"], "every sequence of operations, every process run", "tests run in one process and compare nothing across runs",
  [GA, G, T, B, S], [("no ambient inputs", "call graph of the crate without src/rules/dead_stones.rs")],
  rules=["ambient", "hash_order", "no_globals"], observe=["all public functions"])

P("C21", "The simulated placement is the position the move would really give",
  "For every legal point, the board returned by the simulation is equal to the board after playing that move in the same state, captures and permitted suicide included, and the simulation leaves the game untouched.",
  ["inputs", "histories", "configurations"], "every state, rule set and legal point", "no test compares the two",
  [GA], [("simulation", "src/rules/game.rs play_for_verification"), ("play", "src/rules/game.rs play")],
  scope=[("fn", r"Game::play_for_verification$", "."), ("fn", r"Game::play$", r"goban|all"), ("fn", r"Game::remove_captured_stones$", r"goban|all")],
  rules=["sim_agrees"], observe=["Game::play_for_verification", "Game::play"])

P("C22", "All views of a board tell the same story",
  "Point colour, row-major list, matrix, stone and empty point listings, listings by colour, neighbour queries, stone counts and chain stones all describe the same position: each point of the board once, none outside, in row-major order. "
  "The pieces of the board frame and the stones in the printed board are those of the position, one line per row.",
  ["inputs", "configurations"], "every position on every board size, also rectangular ones", "tests print a board and compare a few listings on 9x9",
  [G], [("listings", "src/pieces/goban.rs to_vec, matrix, get_stones, get_stones_by_color, get_coords_by_color, get_empty_idx, get_empty_coords, get_color, pretty_string, number_of_stones"), ("from list", "src/pieces/goban.rs From<&[MaybeColor]>")],
  scope=[("fn", r"Goban::(to_vec|matrix|get_stones|get_stones_by_color|get_coords_by_color|get_empty_idx|get_empty_coords|get_color.*|pretty_string|number_of_stones|chain_stones.*|chains|get_connected_.*|get_liberties|has_liberties|board|size)$", "."),
         ("fn", r"Goban as std::(fmt::Display|convert::From)", "."), ("fn", r"Game::(pseudo_legals|pseudo_legals_vec|goban|size|display_goban)$|Game as std::ops::Deref", "."), ("fn", r"^<?goban::pieces::stones::", "."), ("closure", r"util::coord::")],
  rules=[], observe=["Goban::to_vec", "Goban::matrix", "Goban::get_stones", "Goban::pretty_string"])

P("C23", "No arithmetic overflow or truncation on any supported board",
  "On every board up to 19x19 no computation of an index, coordinate, count or liberty overflows, wraps or is truncated, in builds with and without overflow checks, for every position and game length; so release and debug builds compute the same results.",
  ["inputs", "histories", "configurations"], "every arithmetic operation and narrowing conversion of the library, every board size", "tests run mostly 9x9 positions in debug builds; u8 and u16 limits are never approached",
  [U, G, GR, GA, Z], [("widening before multiplying", "src/pieces/util.rs two_to_1dim"), ("counters", "src/pieces/goban.rs number_of_stones, remove_captured_stones_aux")],
  rules=["ranges"], observe=["all public functions"])

P("C24", "Games of any length keep working: freed chain slots are used again",
  "Creating a chain uses a free slot if there is one, so the number of slots never exceeds the largest number of chains that were on the board at once, and identifiers stay within range however many stones are placed and captured. "
  "A freed slot is never visible in a listing, and reusing it never disturbs another chain.",
  ["histories"], "every game length", "tests play at most a few hundred moves",
  [GR, G], [("slot table", "src/pieces/group.rs Groups::{put_free_spot, remove, iter, iter_with_index}")],
  scope=[("closure", r"group::Groups::"), ("fn", r"Goban::(create_chain|remove_chain|merge_strings)$", r"chains|all")], rules=[], observe=["Goban::chains", "Goban::push"])

P("C25", "The builder applies every option it is given, once and in order",
  "A game built from options has the requested size, rule, komi, recorded result, turn, handicap and setup stones and has played the given moves in order; options not given take the documented default (19x19, Chinese rules and their komi, Black to move, White with handicap), and setting an option twice keeps the last value. "
  "Requests that cannot be honoured give an error.",
  ["inputs", "configurations"], "every combination and order of options", "tests use two combinations",
  [B], [("options", "src/rules/game_builder.rs GameBuilder setters and build_inner")],
  scope=[("fn", r"game_builder::|(Game|Goban) as std::default::Default", ".")], rules=[], observe=["GameBuilder::build"])

P("C26", "The rule presets and rule flags mean what they are documented to mean",
  "Japanese rules are komi 6.5, ko and suicide forbidden, territory with komi and prisoners; Chinese rules are komi 7.5, ko, superko and suicide forbidden, territory with komi and stones; JAP and CHI name them and any other name is an error. "
  "The flags are distinct, independent bits and set operations on them act bit by bit.",
  ["configurations"], "every preset, every combination of flags", "tests rely on the presets but never on their contents",
  [M], [("presets", "src/rules/mod.rs JAPANESE, CHINESE, FromStr for Rule"), ("flags", "src/rules/mod.rs IllegalRules, ScoreRules")],
  scope=[("fn", r"rules::(IllegalRules|ScoreRules|Rule|Move|EndGame|PlayError|GobanSizes)\b", "."), ("fn", r"From<goban::rules::GobanSizes>", ".")], rules=["rule_consts"], observe=["JAPANESE", "CHINESE", "Rule::from_str"])

P("C27", "The eye test tells exactly the points surrounded by one colour",
  "A point counts as an eye of a colour only when it is empty, all its orthogonal neighbours are stones of that colour, and enough of its corners are of that colour or off the board: all four, or two or three with an empty corner that is itself surrounded in the same way. "
  "Under the eye filling rule a player's own eyes, and only those, are refused.",
  ["inputs"], "every position, point and colour, every board size", "tests check four shapes",
  [GA], [("eye test", "src/rules/game.rs check_eye, helper_check_eye"), ("rule", "src/rules/game.rs check_point_by")],
  scope=[("closure", r"Game::check_eye$|helper_check_eye$"), ("fn", r"check_point_by$", ".")], observe=["Game::check_eye", "Game::check_point_by"])

P("C28", "The dead stone estimate reads the game only and names real weak chains",
  "Estimating dead stones does not change the game, and returns only identifiers of chains on its board that have fewer than two eyes and lose a stone in the simulated continuation. "
  "A drawn continuation or one without legal moves does not make it panic, and simulated players never fill their own eyes nor play refused moves.",
  ["inputs", "schedules"], "every position and every random choice of the simulation", "two tests run it on one position with one random seed each",
  [D], [("weak chains", "src/rules/dead_stones.rs get_floating_stones"), ("comparison", "src/rules/dead_stones.rs dead_stones_wth_simulations"), ("simulation", "src/rules/dead_stones.rs GameTrait, Playout, Evaluator")],
  scope=[("fn", r"dead_stones::", "."), ("closure", r"get_floating_stones$|Game::check_eye$")], rules=[], observe=["Game::dead_stones", "Game::get_floating_stones"])

P("C29", "Handicap stones are black stones on the given points, and White begins",
  "Placing a handicap puts exactly one black stone on each given point and nothing else on the board, records their number as the handicap and gives the turn to White; prisoners, passes, komi, rules and history stay as they are.",
  ["inputs"], "every list of distinct empty points", "one test places two stones",
  [GA, B], [("handicap", "src/rules/game.rs put_handicap; src/rules/game_builder.rs build_inner")],
  scope=[("fn", r"Game::put_handicap$", "."), ("fn", r"build_inner$|GameBuilder::(handicap|put_handicap)$", "."), ("fn", r"Goban::(push|push_stone|push_many)$", ".")],
  rules=[], observe=["Game::put_handicap", "GameBuilder::put_handicap"])

P("C30", "Removing a chain empties exactly its points",
  "Removing a chain from the board empties every point of that chain and no other, gives each of these points as a liberty to every adjacent chain, and frees its identifier; every other chain keeps its stones. "
  "The board afterwards equals one on which these stones were never placed.",
  ["inputs", "histories"], "every position and chain", "tests remove one chain in a simple position",
  [G, GR], [("removal", "src/pieces/goban.rs remove_chain"), ("walk", "src/pieces/group.rs CircularGroupIter")],
  scope=[("closure", r"Goban::remove_chain$")], skip=[], observe=["Goban::remove_chain"])

P("C31", "Optional features and build modes do not change behaviour",
  "Enabling or disabling the optional history and dead stone features only adds functions: every function present without them computes the same with them. "
  "Checks that exist only in debug builds have no effect other than stopping on a broken invariant, so every function computes the same in debug and release builds.",
  ["configurations"], "every combination of the optional features, debug assertions on and off", "tests run in one configuration",
  ["Cargo.toml", G, GA, GR, D], [("cfg attributes", "src/rules/mod.rs, src/rules/game.rs, src/pieces/goban.rs, src/pieces/group.rs")],
  rules=["features_agree", "debug_agree"], observe=["all public functions"])

P("C32", "Conversions between colours, points, moves and results lose nothing",
  "Converting between coordinates, moves, stones, points, colours and results keeps the coordinate, colour and value; the opposite of a colour is the other one and its own inverse; an empty point never becomes a stone, and every kind of won game has its winner and a draw has none.",
  ["inputs"], "every value of these types", "tests use one or two conversions incidentally",
  [ST, M], [("conversions", "src/pieces/stones.rs From/TryFrom impls; src/rules/mod.rs From impls, EndGame::get_winner")],
  scope=[("fn", r"^<?goban::pieces::stones::", "."), ("fn", r"^<?goban::rules::(Move|EndGame|<impl)", "."), ("fn", r"sgf_bridge::<impl std::convert::From", ".")], rules=["color_involution"], observe=["From / TryFrom / Not impls"])

P("N01", "Every chain is a maximal connected set after any history of moves",
  "After any sequence of moves, the chains of a board are exactly the maximal sets of orthogonally connected stones of one colour.",
  ["histories"], "all histories", "tests sample a few games", [G], [("placement and removal", "src/pieces/goban.rs push_wth_feedback, remove_chain")])
P("N02", "Walking the stones of a chain always terminates",
  "The walk over the stones of a chain of a board reached through the public interface always ends and visits each stone once.",
  ["histories"], "all histories", "tests walk short chains", [GR, G], [("circular list", "src/pieces/group.rs CircularGroupIter")])
P("N03", "The dead stone estimate converges to the truth with more simulations",
  "With more simulations the estimate of dead stones gets closer to the stones that are dead with best play.",
  ["schedules", "inputs"], "all positions and random choices", "tests run one position", [D], [("search", "src/rules/dead_stones.rs dead_stones_wth_simulations")])
P("N04", "Legal move generation keeps its speed on long games",
  "Listing the legal moves takes time proportional to the board, independent of the length of the game.",
  ["histories"], "all game lengths", "tests do not measure time", [GA], [("history lookup", "src/rules/game.rs check_super_ko")])

NA = {
    "N01": "An invariant of all histories: it needs an induction over the reachable shapes of chains, boards and circular lists (sets of points, connectivity), which no dataflow or syntax argument here can bound. The step functions it rests on are decided under C03, C04 and C30.",
    "N02": "Termination of the walk depends on the circular shape of a list stored in an index array, a heap shape property of all reachable states; a static shape analysis for it is out of reach. The functions that build the lists are decided under C03 and C30.",
    "N03": "A statement about probabilities of a randomised search in an external crate; nothing in the source decides it.",
    "N04": "A statement about running time; cost is not visible in the value semantics that the analysis computes.",
}
NOTES = {
    "scope": "Every function in the scope of the property is turned into a value graph from the compiler's MIR and compared with the graph of the reference semantics in /verif/spec (reviewed by hand against the property, derived from the repaired tree). Equal IR or equal graphs: same behaviour for all inputs, given the models of the library functions and the invariants listed in DESIGN.md. A reported difference is one over interpretable values with satisfiable conditions; functions that are written too differently are listed as undecided in the evidence and do not alarm.",
    "rules": "The rule is decided on the resolved program (MIR, types, call graph) of the current tree, for every function listed in the evidence; it is a necessary structural part of the property, stated in DESIGN.md.",
}
# well under what is found on the current tree: a rule that finds fewer has lost its anchors
FLOORS = {"freeze": 18, "no_unsafe": 150, "query_sigs": 60, "ambient": 120, "hash_order": 120, "no_globals": 1, "history_grows": 1, "zobrist_table": 1, "rule_consts": 8,
          "ranges": 40, "err_pure": 5, "sim_agrees": 3, "legals_agree": 1, "color_involution": 1, "features_agree": 450, "debug_agree": 150}
ASSUME = [
    "rustc's MIR (unoptimised, nightly) is what the compiler builds from; the stable toolchain used by the tests gives the language the same meaning",
    "library functions behave as their models in /verif/vg/models.py say",
    "the reference semantics in /verif/spec were reviewed by hand against the statement of the property",
]
