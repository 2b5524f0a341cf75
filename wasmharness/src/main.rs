//! Answers requests, one JSON value a line, from the JavaScript interface built for this machine.
use serde_json::{json, Value};
use std::io::{BufRead, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};

fn call(w: &mut ms_toollib::verif::World, q: &Value) -> Value {
    let s = |k: &str| q[k].as_str().unwrap();
    let i = |k: usize| q["a"][k].as_i64().unwrap() as i32;
    match s("op") {
        "cal_bbbv" => json!(ms_toollib::cal_bbbv(s("b"))),
        "cal_op" => json!(ms_toollib::cal_op(s("b"))),
        "cal_possibility_onboard" => json!(ms_toollib::cal_possibility_onboard(s("b"), i(0))),
        "laymine" => json!(ms_toollib::laymine_number(i(0), i(1), i(2), i(3), i(4))),
        "laymine_op" => json!(ms_toollib::laymine_op_number(i(0), i(1), i(2), i(3), i(4))),
        "laymine_solvable" => json!(ms_toollib::laymine_solvable(i(0), i(1), i(2), i(3), i(4), i(5))),
        _ => w.call(q),
    }
}

fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let mut w = ms_toollib::verif::World::new();
    let out = std::io::stdout();
    for l in std::io::stdin().lock().lines() {
        let q: Value = serde_json::from_str(&l.unwrap()).unwrap();
        let r = match catch_unwind(AssertUnwindSafe(|| call(&mut w, &q))) {
            Ok(v) => json!({ "ok": v }),
            Err(e) => {
                let t = e.downcast_ref::<String>().cloned().or(e.downcast_ref::<&str>().map(|x| x.to_string()));
                json!({ "thrown": t.unwrap_or_default() })
            }
        };
        let mut o = out.lock();
        writeln!(o, "{}", r).unwrap();
        o.flush().unwrap();
    }
}
