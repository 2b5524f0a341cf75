// Included at the end of /repo/wasm/src/board.rs when built with --cfg ms_verif:
// the classes there are private to the crate. Calls them as JavaScript would.
pub mod verif {
    use super::*;
    use serde_json::{json, Value};
    use std::panic::{catch_unwind, AssertUnwindSafe};

    /// a value, or null where the call throws
    macro_rules! g {
        ($e:expr) => {
            catch_unwind(AssertUnwindSafe(|| json!($e))).unwrap_or(Value::Null)
        };
    }
    /// the same for a number that may be infinite
    macro_rules! f {
        ($e:expr) => {
            catch_unwind(AssertUnwindSafe(|| $e))
                .map(|x: f64| if x.is_finite() { json!(x) } else { json!("inf") })
                .unwrap_or(Value::Null)
        };
    }
    enum Obj {
        Board(MinesweeperBoard),
        Avf(AvfVideo),
        Evf(EvfVideo),
        Mvf(MvfVideo),
        Rmv(RmvVideo),
    }
    macro_rules! on {
        ($o:expr, $v:ident, $e:expr) => {
            match $o {
                Obj::Avf($v) => $e,
                Obj::Evf($v) => $e,
                Obj::Mvf($v) => $e,
                Obj::Rmv($v) => $e,
                Obj::Board(_) => panic!("not a video"),
            }
        };
    }
    pub struct World {
        objs: Vec<Obj>,
    }
    impl World {
        pub fn new() -> World {
            World { objs: vec![] }
        }
        fn add(&mut self, o: Obj) -> Value {
            self.objs.push(o);
            json!(self.objs.len() - 1)
        }
        fn board(&mut self, q: &Value) -> &mut MinesweeperBoard {
            match &mut self.objs[q["id"].as_u64().unwrap() as usize] {
                Obj::Board(b) => b,
                _ => panic!("not a board"),
            }
        }
        /// the answer to one request
        pub fn call(&mut self, q: &Value) -> Value {
            let s = |k: &str| q[k].as_str().unwrap();
            let u = |k: &str| q[k].as_u64().unwrap();
            match s("op") {
                "clear" => {
                    self.objs.clear();
                    Value::Null
                }
                "board" => {
                    let b = MinesweeperBoard::new(s("b"));
                    self.add(Obj::Board(b))
                }
                "step" => json!(self.board(q).step(s("e"), u("x") as u32, u("y") as u32)),
                "flow" => json!(self.board(q).step_flow(s("es"))),
                "lay" => json!(self.board(q).set_board(s("b"))),
                "show" => json!(self.board(q).set_game_board(s("b"))),
                "state" => {
                    let b = self.board(q);
                    json!({"b": b.get_board(), "gb": b.get_game_board(), "left": b.get_left(), "right": b.get_right(),
                        "dbl": b.get_double(), "ce": b.get_ce(), "flag": b.get_flag(), "solved": b.get_bbbv_solved(),
                        "h": b.get_row(), "w": b.get_column(), "st": b.get_game_board_state(), "ms": b.get_mouse_state()})
                }
                "open" => {
                    let d: Vec<u8> = q["d"].as_array().unwrap().iter().map(|x| x.as_u64().unwrap() as u8).collect();
                    let d = d.into_boxed_slice();
                    let o = match s("fmt") {
                        "avf" => Obj::Avf(AvfVideo::new(d, "v.avf")),
                        "evf" => Obj::Evf(EvfVideo::new(d, "v.evf")),
                        "mvf" => Obj::Mvf(MvfVideo::new(d, "v.mvf")),
                        _ => Obj::Rmv(RmvVideo::new(d, "v.rmv")),
                    };
                    self.add(o)
                }
                op => {
                    let o = &mut self.objs[u("id") as usize];
                    on!(o, v, match op {
                        "parse" => json!(v.parse_video()),
                        "analyse" => json!(v.analyse()),
                        "event" => json!(v.set_current_event_id(u("k") as usize)),
                        "time" => json!(v.set_current_time(q["t"].as_f64().unwrap())),
                        "poss" => json!(v.get_game_board_poss()),
                        "valid" => json!(v.is_valid()),
                        "head" => {
                            let mut h = json!({"done": g!(v.get_is_completed()), "official": g!(v.get_is_offical()),
                                "fair": g!(v.get_is_fair()), "h": g!(v.get_row()), "w": g!(v.get_column()),
                                "mines": g!(v.get_mine_num()), "mode": g!(v.get_mode()), "level": g!(v.get_level()),
                                "pix": g!(v.get_pix_size()),
                                "bbbv": g!(v.get_bbbv()), "rtime": f!(v.get_rtime()), "rtimems": g!(v.get_rtime_ms()),
                                "check": g!(v.get_checksum()), "raw": g!(v.get_raw_data())});
                            h["strs"] = json!([g!(v.get_software()), g!(v.get_player_designator()), g!(v.get_race_designator()),
                                g!(v.get_uniqueness_designator()), g!(v.get_start_time()), g!(v.get_end_time()),
                                g!(v.get_country()), g!(v.get_device_uuid())]);
                            h["statics"] = json!([g!(v.get_bbbv()), g!(v.get_op()), g!(v.get_isl()), g!(v.get_cell0()),
                                g!(v.get_cell1()), g!(v.get_cell2()), g!(v.get_cell3()), g!(v.get_cell4()), g!(v.get_cell5()),
                                g!(v.get_cell6()), g!(v.get_cell7()), g!(v.get_cell8())]);
                            h["hizi"] = g!(v.get_hizi());
                            h["start"] = f!(v.get_video_start_time());
                            h["end"] = f!(v.get_video_end_time());
                            h
                        }
                        "events" => {
                            let n = v.get_events_len();
                            json!((0..n).map(|k| json!([g!(v.events_mouse(k)), f!(v.events_time(k)), g!(v.events_x(k)),
                                g!(v.events_y(k)), g!(v.events_useful_level(k)), g!(v.events_mouse_state(k))])).collect::<Vec<_>>())
                        }
                        "view" => {
                            let mut j = json!({"left": g!(v.get_left()), "right": g!(v.get_right()), "dbl": g!(v.get_double()),
                                "cl": g!(v.get_cl()), "flag": g!(v.get_flag()), "ce": g!(v.get_ce()),
                                "solved": g!(v.get_bbbv_solved()), "left_s": f!(v.get_left_s()), "right_s": f!(v.get_right_s()),
                                "dbl_s": f!(v.get_double_s()), "cl_s": f!(v.get_cl_s()), "flag_s": f!(v.get_flag_s()),
                                "path": f!(v.get_path()), "etime": f!(v.get_etime()), "bbbv_s": f!(v.get_bbbv_s()),
                                "stnb": f!(v.get_stnb()), "rqp": f!(v.get_rqp()), "ce_s": f!(v.get_ce_s())});
                            j["corr"] = f!(v.get_corr());
                            j["thrp"] = f!(v.get_thrp());
                            j["ioe"] = f!(v.get_ioe());
                            j["mouse"] = g!(v.get_mouse_state());
                            j["st"] = g!(v.get_game_board_state());
                            j["gb"] = g!(v.get_game_board());
                            j["id"] = g!(v.get_current_event_id());
                            j["xy"] = g!({
                                let p = v.get_x_y();
                                [p.0, p.1]
                            });
                            j
                        }
                        _ => panic!("unknown request"),
                    })
                }
            }
        }
    }
}
