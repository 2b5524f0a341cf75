#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json (the claimed set is CLAIMED)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
B = "base/src/"
ALL = []


def P(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    ALL.append(dict(id=id, title=title, statement=statement,
                    quantifier=dict(over=over, text=text), why_tests_cant=why,
                    anchors=dict(files=[os.path.normpath(B + f) for f in files],
                                 state=[dict(name=n, meaning=m, where=os.path.normpath(B + w)) for n, m, w in state],
                                 mechanism=[dict(name=n, where=os.path.normpath(B + w)) for n, w in mech],
                                 observe_at=list(observe), hook_needed=hook)))


MB = "videos/minesweeper_board.rs"
BV = "videos/base_video.rs"
P("C01", "A game goes Ready, pre-flagging, Playing, then Won or Lost, truthfully",
  "A game starts Ready, enters pre-flagging only by right presses before the first opening, enters Playing with the first opening of a cell, is Won exactly when every safe cell is open and no mine is open, and is Lost exactly when a mine was opened. After Won or Lost no event changes anything any more, and resetting brings back a fresh game. The outcome depends only on the board and the event sequence, not on the board representation.",
  ["histories", "inputs"], "every board, every sequence of mouse events (valid, redundant or unpaired, inside or outside the board), reset at any point",
  "The tests play a handful of fixed click scripts on a few boards; the state machine has 14 event kinds x 9 mouse states x every board.",
  [MB], [("MinesweeperBoard::step, is_win, reset", MB)],
  [("game_board_state", "Ready/PreFlaging/Playing/Win/Loss", MB)], ["MinesweeperBoard public fields after every step"])
P("C02", "The displayed board always tells the truth and only what was opened",
  "During a game every cell shows closed, flagged, or - only if the player opened it directly, by a chord or as part of the opening flooding from it - its true content: the true number, and on an opened mine the mine that exploded. Opening a cell with number zero reveals exactly its opening (all zeros connected to it and the numbers bordering them), flagged cells excepted; closed cells are opened only by left clicks and chords, never flagged ones; flags change only by right presses.",
  ["histories", "inputs"], "every board and every event sequence", "Only final boards of a few scripts are asserted; a flood fill or chord on unusual shapes is never reached.",
  [MB, "utils.rs"], [("left_click, right_click, chording_click", MB), ("refresh_board", "utils.rs")],
  [("game_board", "-1..8 open / 10 closed / 11 flag / 14.. lost-mine marks", MB)], ["game_board after every step"])
P("C03", "Every click is counted exactly once, in the right counter",
  "After any event sequence the left, right and double click counters are the numbers of left releases, right presses and chord releases that count as clicks under the documented mouse rules: a release that ends a cancelled gesture, a press outside the board or an event after the end of the game counts nothing, and no counter ever decreases during play (except through the reset of an unfinished pre-flag phase or of a right click that turned out to start a chord). The total is the sum of the three.",
  ["histories", "inputs"], "every event sequence on every board", "Tests assert counters at the end of a few scripts; the cancelled gestures, toggled drags and out-of-board releases are not in them.",
  [MB], [("step", MB)], [("left, right, double", "click counters", MB)], ["public counters after every step"])
P("C04", "Progress measures count exactly what the game state shows",
  "At every moment the flag count is the number of flags on the displayed board, the solved 3BV is the number of openings completely open plus the number of open numbers that touch no zero, and effective clicks grow by at most one per event and only when that event changes the displayed board usefully. A won game has solved exactly the board's 3BV.",
  ["histories", "inputs"], "every board and event sequence, with flags anywhere, partly opened openings and chords into several openings at once",
  "Tests compare final sums for recorded videos in which openings open in one click; partially opened, flag-split openings are never exercised.",
  [MB], [("left_click, chording_click, num_is_op..., op_num_completed", MB)],
  [("bbbv_solved, ce, flag", "solved 3BV, effective clicks, flags", MB)], ["public counters after every step"])
P("C05", "The two-button mouse automaton is total and never crashes",
  "From every reachable mouse state every event - left, right, middle press or release, a left press with the right held and so on, on any cell or outside the board - leads to the documented next mouse state, and never to a panic, an arithmetic overflow or an undefined state, whatever the order, pairing or position of the events. Only the documented gestures (both buttons, middle button, left with right held) act as a chord.",
  ["histories", "inputs"], "every ordering of the 14 event kinds, including lost presses and releases",
  "Scripts use well-paired events; 9 states x 14 events x 4 positions is larger than what they reach.",
  [MB], [("step: match on mouse_state", MB)], [("mouse_state", "UpUp, UpDown, UpDownNotFlag, DownUp, Chording, ...", MB)], ["mouse state after every step"])
P("C06", "The reported usefulness of every event is what it did",
  "Each step reports its level: 0 exactly when nothing was opened, flagged or unflagged, 1 or more when the displayed board changed, with the documented distinction between flagging, opening numbers and opening more; invalid requests are reported as errors and change nothing. The report is the same function of board and history every time.",
  ["histories", "inputs"], "every board and event sequence", "Return values of single steps are asserted in no test beyond a few calls.",
  [MB], [("step, left_click, right_click, chording_click return values", MB)], [], ["value returned by step"])
P("C07", "Board metrics equal their definitions",
  "For every legal board, 3BV is the number of openings plus the number of safe cells with no zero neighbour and not zero themselves, openings are the 8-connected components of zeros, islands are the 8-connected components of numbers that touch no zero, and the nine cell counts partition the safe cells by number. The figures are the same however often and in which order they are asked for, on every board representation and under every reflection of the board.",
  ["inputs", "configurations"], "every board of every size and mine density, every order of queries", "Tests assert about five boards.",
  ["utils.rs", "board.rs"], [("cal_op, cal_isl, cal_bbbv, cal_cell_nums, cal3BVonIsland, cal_board_numbers", "utils.rs"), ("Board getters", "board.rs")],
  [], ["metric functions and Board getters"])
P("C08", "Mine laying gives a legal board that honours the start",
  "Laying a board of R x C cells with N mines gives exactly R x C cells and N mines, every other cell showing its number of adjacent mines. The start cell is never a mine when N < R*C; the variant that asks for an opening at the start makes every neighbour of the start safe too whenever there is room for it, and both answer every feasible request. Every layout these rules allow can come out.",
  ["inputs", "configurations"], "every size, mine count from 0 to full, start in the interior, on edges and corners", "A random layout is sampled once per test; extreme densities and thin boards are not tried.",
  ["utils.rs"], [("laymine, laymine_op, cal_board_numbers", "utils.rs")], [], ["returned board"])
P("C09", "Deductions are sound: what is called safe or mine is so in every arrangement",
  "For every position consistent with at least one arrangement of mines, each cell that deduction (direct, subtraction, enumeration, marking, or the cached position object) declares safe is free of mines in every arrangement that agrees with all displayed numbers, and each cell declared a mine is a mine in every such arrangement. Marks added to the position are only such conclusions, the displayed numbers stay untouched, and on a contradictory position marking and probability calculation never panic: marking reports an error when some number with unopened neighbours cannot be satisfied by its own neighbourhood, and probability calculation when some block of linked numbers has no arrangement. Setting a new position in the position object makes it answer for that position only.",
  ["inputs", "histories"], "every consistent position, of every shape, with or without correct mine marks", "Tests assert five fixed positions; the claim quantifies over all arrangements of every position.",
  ["algorithms.rs", "board.rs", "utils.rs"], [("solve_direct, solve_minus, solve_enumerate, mark_board, get_all_not_and_is_mine_on_board", "algorithms.rs"), ("GameBoard", "board.rs")],
  [], ["returned cell lists, mutated board"])
P("C10", "Enumeration finds every locally certain cell",
  "For every consistent position, enumeration together with direct and subtraction deductions finds each bordering cell that has the same value in all arrangements agreeing with the displayed numbers (mine total disregarded), as long as every block has at most the enumeration limit of cells. What it returns lists each cell once and is either safe or mine, never both.",
  ["inputs"], "every consistent position within the block size limit", "Completeness needs all positions; five are tested.",
  ["algorithms.rs", "utils.rs"], [("solve_enumerate, get_all_not_and_is_mine_on_board", "algorithms.rs"), ("enum_comb, combine", "utils.rs")], [], ["returned cell lists"])
P("C11", "Mine probabilities are exact",
  "For every consistent position and mine count, the probability reported for each unopened cell equals the fraction of the arrangements with exactly that many mines, agreeing with all displayed numbers and given marks, in which the cell is a mine; opened cells get 0 and marked mines 1, and the cells away from all numbers share one value. The probabilities over all cells sum to the mine count, the reported feasible range of mine counts is exact, and a mine count that no arrangement has gives an error, not a number. A block of linked numbers over more than 55 cells, the documented enumeration limit, is treated as if its cells were away from all numbers, and the size of the longest block is reported with the result. A fraction stands for that part of the cells, rounded down and moved into the feasible range.",
  ["inputs"], "every consistent position with every mine count (and mine fraction)", "Tests compare three fixed positions with literals.",
  ["algorithms.rs", "utils.rs"], [("cal_possibility, cal_possibility_onboard", "algorithms.rs"), ("cal_table_minenum_recursion, BigNumber, C", "utils.rs")], [], ["returned probabilities and ranges"])
P("C12", "Opening probabilities are exact",
  "For every consistent position and mine count, the reported probability that a cell shows nothing (zero) when opened equals the fraction of the consistent arrangements in which neither that cell nor any of its neighbours is a mine; asking for several cells at once gives the same as asking for each alone.",
  ["inputs"], "every consistent position, mine count and cell", "One position is tested.",
  ["algorithms.rs"], [("cal_is_op_possibility_cells", "algorithms.rs")], [], ["returned probabilities"])
P("C13", "Boards called solvable can be solved without guessing",
  "Whenever a board is judged solvable from a start cell, a player who opens only cells that are safe in every arrangement consistent with what is displayed, beginning with the start, opens every safe cell; and from a start that opens an empty area the judgement is exact: a board judged unsolvable leaves such a player stuck. Boards delivered by any generator (filtering, adjusting, or several threads) as solvable are solvable in this sense, and every delivered board, solvable or not, is legal, has the requested size and mine count, and a start that is safe, and zero whenever the mines leave room for it; one success of any thread makes the call succeed. A generator given a number of attempts uses all of them before it reports failure and none beyond them: with no attempts it reports failure.",
  ["inputs", "schedules"], "every board and start, every generator request and thread schedule", "A generator run is sampled once per test without asking an independent judge.",
  ["algorithms.rs", "utils.rs"], [("is_solvable, laymine_solvable, laymine_solvable_adjust, laymine_solvable_thread", "algorithms.rs"), ("unsolvable_structure", "utils.rs")], [], ["verdict and returned boards"])
P("C14", "Guesses are classified by what was knowable",
  "For every consistent position and cell (the player's own marks taken off first), a click is classified 5 if the cell is open, 1 if the cell is safe in every arrangement agreeing with the numbers, 4 if it is a mine in every one, otherwise 3 (needless guess) if the region of unopened cells it belongs to - connected by contact or by shared numbers - has some certainly safe cell, and 2 (forced guess) if not. The judgement that acting on a cell was deducible is given exactly for unopened cells that have the same value in every arrangement.",
  ["inputs"], "every consistent position and cell", "A few positions are asserted.",
  ["algorithms.rs", "utils.rs"], [("is_guess_while_needless, is_able_to_solve", "algorithms.rs"), ("refresh_matrixses", "utils.rs")], [], ["returned code"])
P("C15", "The position is split into independent constraint blocks without loss",
  "The constraint system built from a position has one equation per open number with unopened neighbours, over exactly the unopened cells that border a number, with the number reduced by the adjacent mine marks. Splitting it gives a partition of those equations and cells in which two equations stand in one block exactly when they are linked through shared unopened cells, grouping blocks gives a partition by contiguous region of unopened cells, and merging cells that no equation distinguishes loses no cell; the table of local solutions lists, per mine count, exactly how many assignments satisfy the block and in how many each cell is a mine.",
  ["inputs"], "every consistent position", "Tests compare one or two literal matrices.",
  ["utils.rs"], [("refresh_matrix, refresh_matrixs, refresh_matrixses, combine, cal_table_minenum_recursion", "utils.rs")], [], ["returned matrices and tables"])
P("C16", "A recorded game written to a file reads back the same",
  "For every finished game, recorded with the nine event kinds a file can hold, and with any metadata, writing the native video format and parsing the bytes restores board, mine count, size, mode, pixel size, flags, times, all texts, every event with its time, kind and position, and the checksum; the bytes follow the published layout. Writing what was parsed gives the same bytes again.",
  ["inputs", "histories"], "every board up to 255 x 255, any event sequence, strings and header values up to the field limits", "One round trip with a tiny game is tested.",
  [BV, "videos/evf_video.rs"], [("generate_evf_v0_raw_data, save_to_evf_file", BV), ("EvfVideo::parse_video", "videos/evf_video.rs")], [], ["raw bytes, getters of the parsed video"])
P("C17", "Replaying a recording reproduces the live game",
  "For a game recorded with the nine event kinds a file can hold, parsing and analysing the bytes of a recorded game gives the same outcome, 3BV, elapsed time, click, flag, effective-click and solved counters, the same sequence of displayed boards, and the same per-event mouse state and level as the live game had. The derived statistics (rates, efficiencies, path) are the documented functions of these.",
  ["histories", "inputs"], "every recordable game", "A few sample files are analysed against literals; no live game is compared with its replay.",
  [BV], [("BaseVideo::step (SafeBoard and Vec), analyse", BV)], [], ["getters of live and parsed videos"])
P("C18", "Malformed video files are rejected, never crash",
  "For every byte string - truncated at any point, with any bytes changed, or of another format - parsing returns a video or a parse error; it does not panic, overflow or loop.",
  ["inputs", "fault_sequences"], "every prefix of every valid file and every corruption of its bytes", "Only well-formed files are parsed in tests.",
  ["videos/evf_video.rs", "videos/avf_video.rs", "videos/rmv_video.rs", "videos/mvf_video.rs", BV], [("parse_video of each format, get_u8/get_u16/...", BV)], [], ["Result of parse_video"])
P("C19", "Playback position depends only on the time asked for",
  "In an analysed video, seeking to any time, from anywhere and after any earlier seeks or switches of the event index, gives the state after the last event not later than that time; seeking to the same time twice changes nothing, times before the first or after the last event are clamped. Everything displayed (board, counters, mouse, probabilities) belongs to that event.",
  ["histories", "inputs"], "every sequence of seeks in every video", "Tests set one or two times per video.",
  [BV], [("set_current_time, set_current_event_id, getters", BV)], [("current_event_id, current_time", "playback position", BV)], ["getters after each seek"])
P("C20", "Saving never overwrites an existing file",
  "Saving a video under a name that is taken stores it under the first free numbered variant of that name with the video extension and leaves every existing file as it was. The stored bytes are the video's bytes.",
  ["histories", "configurations"], "every set of existing files and every sequence of saves", "Saving is not tested.",
  [BV], [("save_to_evf_file", BV)], [], ["directory content after save"])
P("C21", "The live recorder logs every effective event once, with consistent boards",
  "While a game is being recorded every event from the start of the current attempt on is logged once, in order, with its time, position, mouse state and counters, and linked to the displayed board before and after it; returning to Ready drops the log, and nothing is logged after the end. The time on display is nought before the game, runs from the first event while flags are set in advance and from the opening while playing, and stands at the result after the end. A board laid anew during the game that keeps everything displayed true is the board the rest of the game is judged by and the one that is written; a reset leaves nothing of the game before. Metadata can be set, and results read, only in the phases the API allows; otherwise an error is returned and nothing changes.",
  ["histories", "inputs"], "every event sequence, interleaved with setters and resets", "Tests record short scripted games.",
  [BV], [("BaseVideo::step, reset, setters", BV)], [("video_action_state_recorder, game_board_stream", "event log and boards", BV)], ["recorder and getters after every call"])
P("C22", "AVF files are decoded faithfully",
  "Every AVF file that encodes a board, level, options, header texts and a list of timed mouse events in the documented layout is parsed to exactly that board, level, mine count, texts, results and events, in order and with the times and positions written.",
  ["inputs"], "every legal AVF content (boards, sizes, levels, event lists)", "A handful of sample files are parsed.",
  ["videos/avf_video.rs"], [("AvfVideo::parse_video", "videos/avf_video.rs")], [], ["getters of the parsed video"])
P("C23", "RMV files are decoded faithfully",
  "Every RMV file that encodes a board, header texts, pre-flags and a list of timed mouse events in the documented layout is parsed to exactly that board, size, mine count, texts and events, in order and with the times and positions written.",
  ["inputs"], "every legal RMV content", "A handful of sample files are parsed.",
  ["videos/rmv_video.rs"], [("RmvVideo::parse_video", "videos/rmv_video.rs")], [], ["getters of the parsed video"])
P("C24", "The video checksum is attached once and kept",
  "A checksum given to a finished recording becomes the last bytes of the file and is what a reader of the file gets; giving another replaces it without touching the rest, and a game that was reset carries none.",
  ["histories", "inputs"], "every order of generate, attach, re-attach and reset", "No test sets a checksum twice or after reset.",
  [BV], [("set_checksum, generate_evf_v0_raw_data, reset", BV)], [], ["raw bytes and checksum getters"])
P("C25", "Play annotations are attached to the right events and are true",
  "In an analysed video each annotation is attached to the event it describes and holds of the position displayed just before that event, and every event that has the described feature gets it: risky guess (at least 51% mine), needless guess (an uncertain click while some cell is certainly safe), hard deduction (a certain cell that single numbers and pairs of numbers do not give), crooked mouse path between clicks (more than 3.5 or 7 times the straight line), looking away (a useful click 112 pixels or more from the last one while a cell within three cells of that one was certainly safe), textbook flag-and-chord passage (marks and good chords close together, interrupted before the game ends) with its number of steps, and at the last event the product of the survival probabilities of all guesses. A chord is judged good exactly when its number is met by marks, it opens some cell, and no orthogonally adjacent met number would open more. Annotations of several kinds never displace each other.",
  ["inputs", "histories"], "every analysed video", "One or two videos are compared with literal texts.",
  ["videos/analyse_methods.rs", "utils.rs"], [("analyse_survive_poss, analyse_needless_guess, analyse_high_risk_guess, analyse_jump_judge, analyse_vision_transfer", "videos/analyse_methods.rs"), ("is_good_chording", "utils.rs")], [], ["comments of events, is_good_chording"])
P("C26", "The protected board holds exactly what was put in",
  "A protected board built from any board returns, by index, by iteration, by row and as a whole, exactly the cells put in, and after being given another board exactly the new ones; two protected boards of the same content behave identically in every metric and game.",
  ["inputs", "histories"], "every board of every shape, repeated re-sets", "One board is tested by index.",
  ["safe_board.rs"], [("SafeBoardRow::new/Index/into_vec/Iterator, SafeBoard::set", "safe_board.rs")], [], ["index, iterator, into_vec_vec"])
P("C27", "Threaded generation answers once, with a success if any was found",
  "Generation with several threads terminates under every schedule with one board, reports success only together with a board that has it, reports failure only when every thread ran out of attempts, makes no more attempts in all than it was given, and leaves no thread blocked.",
  ["schedules"], "every interleaving of the worker threads and every distribution of successes over them", "A test run sees one schedule.",
  ["algorithms.rs"], [("laymine_solvable_thread", "algorithms.rs")], [], ["returned pair"])
P("C28", "Screenshots are recognised and random layouts are uniform",
  "Board recognition from screenshots returns the board shown, and random layouts are uniformly distributed over the layouts allowed.",
  ["inputs"], "all files, images and seeds", "No ground truth exists in the repository.",
  ["OBR.rs", "utils.rs"], [("OBR_board", "OBR.rs"), ("laymine", "utils.rs")], [], ["returned boards"])
P("C29", "MVF files are decoded faithfully",
  "Every MVF file that encodes a board, level, mode, result and a list of timed mouse events in the documented layout, its events scattered by the permutation computed from the header, is parsed to exactly that board, mine count, player, result and events, in order and with the times and positions written.",
  ["inputs"], "every legal MVF content of the four known layouts", "A handful of sample files are parsed.",
  ["videos/mvf_video.rs"], [("MvfVideo::parse_video, read_097, read_event", "videos/mvf_video.rs")], [], ["getters of the parsed video"])

P("C30", "The remaining mines are shown truthfully once a game has ended",
  "After a win, marking the remaining mines puts a flag on exactly the mines not flagged yet; after a loss, showing them turns exactly the unflagged, unopened mines into shown mines. In any other phase neither does anything. The event log, the counters, the displayed boards recorded before and the file bytes stay as they were, and doing it again changes nothing.",
  ["histories", "inputs"], "every board and history of play, at every phase, in any order with the other calls", "Neither call is tested.",
  [BV], [("win_then_flag_all_mine, loss_then_open_all_mine", BV)], [("minesweeper_board.game_board", "displayed board", BV)], ["displayed board and getters after the call"])
P("C31", "The review verdict follows the ranking rules",
  "For every analysed video the review verdict is: 1 (invalid) if the program is none of the four known ones; for Viennasweeper, 3 (cannot say) if the start time is missing or no number and 1 if it lies after the ban of 2023-04-24; for the two Metasweeper versions, 1 if all checksum bytes are equal or the video is marked unfair; then 3 if there are fewer than ten events per 3BV; otherwise 0 (valid) if the replayed game is won and 1 if not. It never panics.",
  ["inputs"], "every file of every format, with every program name, start time, checksum, fairness mark, event count and outcome", "One or two sample files are judged.",
  [BV], [("is_valid", BV)], [], ["value returned by is_valid"])
P("C32", "The expert sampler counts every board it was asked for",
  "For every start cell and number n the expert 3BV sampler returns a histogram of exactly n boards, whatever its threads do, each counted under its own 3BV: the 3BVs are distributed as those of expert boards laid the plain way.",
  ["inputs", "schedules"], "every start cell, every n, every sampled board, every schedule of the 16 threads", "The sampler is only timed.",
  ["algorithms.rs", "utils.rs"], [("sample_3BVs_exp, laymine_study_exp", "algorithms.rs"), ("cal_bbbv_exp", "utils.rs")], [], ["returned histogram"])

P("C33", "The Python interface tells what the library tells",
  "What a Python program is shown of a game, a board, a deduction, a probability, a generated board or a video - the state, counters and displayed board after every step, the metrics of every order of queries, the cells called safe or mine, the odds of every cell, the header, events, statistics and playback of every file of the four formats, the file written from it again - is what the definitions say of it: the interface neither swaps, shifts, drops nor rounds away what it passes on; the game recorded live from Python, its log, its header and its file are those of the calls made; a call the library refuses does nothing there either and gives no wrong answer, and what was set is what is held.",
  ["inputs", "histories"], "every call of the interface with every argument, in every order: every event sequence on every board, every position, every file of every format, every seek",
  "The interface has no tests of its own; its several hundred one-line getters are copies in which one wrong name compiles and passes.",
  ["../../python_package/src/lib.rs", "../../python_package/src/board.rs", "../../python_package/src/base_video.rs", "../../python_package/src/evf_video.rs",
   "../../python_package/src/avf_video.rs", "../../python_package/src/rmv_video.rs", "../../python_package/src/mvf_video.rs"],
  [("py_* functions", "../../python_package/src/lib.rs"), ("PyMinesweeperBoard, PySafeMinesweeperBoard, PyBoard", "../../python_package/src/board.rs"), ("PyGameBoard", "../../python_package/src/gameboard.rs")],
  [], ["the imported module's functions, classes and getters"])
P("C34", "The JavaScript interface tells what the library tells",
  "What a web page is shown through the WebAssembly interface of a game, a board, a probability, a generated board or a video - state, counters and displayed board after every step, 3BV and openings, the odds of every cell, header, events, statistics, verdict and playback of every file of the four formats - is what the definitions say of it: the interface neither swaps, shifts, drops nor rounds away what it passes on or turns into text; a call the library refuses does nothing there either and gives no wrong answer, and what was set is what is held.",
  ["inputs", "histories"], "every call of the interface with every argument, in every order: every event sequence on every board, every position, every file of every format, every seek",
  "The interface has no tests; its hundred one-line getters are copies in which one wrong name compiles and passes.",
  ["../../wasm/src/lib.rs", "../../wasm/src/board.rs", "../../wasm/src/transfor.rs"],
  [("exported functions", "../../wasm/src/lib.rs"), ("MinesweeperBoard, AvfVideo, EvfVideo, MvfVideo, RmvVideo", "../../wasm/src/board.rs"), ("json2vec, vec2json, trans_opt", "../../wasm/src/transfor.rs")],
  [], ["exported functions, and methods and getters of the exported classes"],
  "the classes of wasm/src/board.rs are private: cfg ms_verif adds a module that calls them (commit 0392b3c)")

P("C35", "A video of another program written in the native format stays the same video",
  "Writing a video read from an avf, rmv or mvf file in the native format - as read, or after it was analysed - gives a file of that format holding the same board, mode, texts, "
  "3BV, time, verdict flags and every event with its kind, time and place, as far as the format has room for them; reading that file and analysing it gives the same log, the same displayed boards, "
  "statistics and playback as the original game. Writing changes nothing of the video itself, and analysing nothing but what it finds out (whether the game was won, its 3BV).",
  ["inputs"], "every file of the three formats, every game in it, written before or after analysis",
  "No test converts a file; the writer runs on data filled in by four different readers, and what is lost shows only when the new file is read again.",
  ["videos/base_video.rs", "videos/avf_video.rs", "videos/rmv_video.rs", "videos/mvf_video.rs", "videos/evf_video.rs"],
  [("BaseVideo::generate_evf_v0_raw_data, analyse, get_rtime_ms", "videos/base_video.rs"), ("parse_video", "videos/avf_video.rs"), ("parse_video", "videos/rmv_video.rs"), ("parse_video", "videos/mvf_video.rs"), ("parse_video", "videos/evf_video.rs")],
  [], ["parse_video, analyse, generate_evf_v0_raw_data, get_raw_data and the getters"])

GAME_T = "TLA+ specification of the game, model checked by TLC; TLC paths replayed into the code; recorded traces validated by TLC"
LVL = {}
MC_NOTE = ("TLC checks the specification exhaustively on small instances, and decides for every recorded call or trace of the real code "
           "(generated from the specification's state graph, and at random on larger instances) whether the specification allows it. "
           "Conformance on larger boards is sampled. ")
CLAIMED = {}
NA = {}


def C(id, technique, note=""):
    CLAIMED[id] = dict(technique=technique, note=note)


for i in ("C01", "C02", "C03", "C04", "C05", "C06"):
    C(i, GAME_T)
exec(open(os.path.join(V, "tools", "claims.py")).read())

for p in ALL:
    if p["id"] not in CLAIMED and p["id"] not in NA:
        NA[p["id"]] = "check not finished yet"
with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p in ALL:
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
m = dict(version=1, setup_cmd="python3 check.py --build",
         checks=[dict(property=p["id"], quick_cmd="python3 check.py " + p["id"],
                      thorough_cmd="python3 check.py " + p["id"], evidence_file="evidence/%s.json" % p["id"],
                      technique=CLAIMED[p["id"]]["technique"], level="model_checking",
                      level_note=(MC_NOTE + CLAIMED[p["id"]]["note"]).strip())
                 for p in ALL if p["id"] in CLAIMED],
         not_applicable=[dict(property=p["id"], reason=NA[p["id"]]) for p in ALL if p["id"] in NA],
         hooks=dict(guard="cfg ms_verif (wasm crate only)",
                    enable="RUSTFLAGS='--cfg ms_verif' MS_VERIF_WASM=/verif/wasmharness/hook.rs (lib/common.py build_wasm); everything else is reached through public interfaces",
                    source_commits=["0392b3ca5f907b9dc82ff2bb36616e42b07e9a00"]),
         notes="Known findings and fixes: known-findings.txt.")
with open(os.path.join(V, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1, ensure_ascii=False)
    f.write("\n")
print(len(CLAIMED), "claimed,", len(NA), "not")
