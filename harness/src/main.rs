//! Replays scenarios in the real library and records what can be observed.
//!
//! usage: ledger-conform SCENARIOS.ndjson RESULTS.ndjson FIRST STEP
//!
//! Every FIRST + k * STEP'th line of SCENARIOS is a scenario: a list of operations on
//! numbered journals ("slots"). One line per scenario is written to RESULTS: the results of
//! the operations. A panic of the library is recorded as data. Links between the entities are
//! compared by address and only followed when the address is known to be valid.
use std::collections::HashMap;
use std::io::{BufRead, BufReader, Cursor, Read, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};

use chrono::{Datelike, NaiveDate, NaiveDateTime, NaiveTime, Timelike};
use ledger_rs_lib::account::Account;
use ledger_rs_lib::amount::{Amount, Quantity};
use ledger_rs_lib::commodity::Commodity;
use ledger_rs_lib::journal::Journal;
use ledger_rs_lib::{parse_file, parse_text, parser, report, run, run_command};
use serde_json::{json, Value};

/// Delivers the bytes in portions, optionally with interrupts, and fails after the last byte.
struct Portions {
    bytes: Vec<u8>,
    pos: usize,
    sizes: Vec<usize>,
    n: usize,
    interrupt: bool,
    interrupted: bool,
    fail: bool,
    kind: usize,
}

impl Read for Portions {
    fn read(&mut self, buf: &mut [u8]) -> std::io::Result<usize> {
        if self.interrupt && !self.interrupted {
            self.interrupted = true;
            return Err(std::io::Error::from(std::io::ErrorKind::Interrupted));
        }
        self.interrupted = false;
        let left = self.bytes.len() - self.pos;
        if left == 0 {
            if self.fail {
                use std::io::ErrorKind::*;
                let kinds = [Other, UnexpectedEof, WouldBlock, TimedOut, BrokenPipe, ConnectionReset, InvalidData, NotFound,
                             PermissionDenied, InvalidInput];
                return Err(std::io::Error::new(kinds[self.kind % kinds.len()], "fault"));
            }
            return Ok(0);
        }
        let size = if self.sizes.is_empty() { left } else { self.sizes[self.n % self.sizes.len()] };
        self.n += 1;
        let size = size.max(1).min(left).min(buf.len());
        buf[..size].copy_from_slice(&self.bytes[self.pos..self.pos + size]);
        self.pos += size;
        Ok(size)
    }
}

fn s<'a>(v: &'a Value, key: &str) -> &'a str {
    v[key].as_str().unwrap_or("")
}

fn dt_json(t: NaiveDateTime) -> Value {
    json!([t.year(), t.month(), t.day(), t.hour(), t.minute(), t.second()])
}

fn date_json(d: NaiveDate) -> Value {
    json!([d.year(), d.month(), d.day()])
}

fn moment(v: &Value) -> NaiveDateTime {
    let n: Vec<u32> = v.as_array().unwrap().iter().map(|x| x.as_u64().unwrap() as u32).collect();
    NaiveDateTime::new(
        NaiveDate::from_ymd_opt(n[0] as i32, n[1], n[2]).unwrap(),
        NaiveTime::from_hms_opt(n[3], n[4], n[5]).unwrap(),
    )
}

#[cfg(ledger_verif)]
fn symbols(j: &Journal, _known: &[String]) -> Vec<String> {
    ledger_rs_lib::verif::symbols(&j.commodity_pool)
}
#[cfg(not(ledger_verif))]
fn symbols(j: &Journal, known: &[String]) -> Vec<String> {
    known.iter().filter(|k| j.commodity_pool.find(k).is_some()).cloned().collect()
}

type Addrs = HashMap<usize, String>;

fn addr<T>(x: *const T) -> usize {
    x as usize
}

/// Addresses of the commodities
fn commodity_addrs(j: &Journal, known: &[String]) -> Addrs {
    let mut result = Addrs::new();
    for sym in symbols(j, known) {
        if let Some(c) = j.commodity_pool.find(&sym) {
            // the symbol under which it is found has to be its own
            let name = if c.symbol == sym { sym } else { format!("\u{1}misnamed {}", c.symbol) };
            result.insert(addr(c as *const Commodity), name);
        }
    }
    result
}

fn symbol_of(a: &Amount, cs: &Addrs) -> String {
    match a.get_commodity() {
        None => String::new(),
        Some(c) => match cs.get(&addr(c as *const Commodity)) {
            Some(name) => name.clone(),
            None => "\u{1}unknown".to_string(),
        },
    }
}

fn amt(a: &Amount, cs: &Addrs) -> Value {
    json!({"q": a.quantity.to_string(), "c": symbol_of(a, cs)})
}

fn opt_amt(a: &Option<Amount>, cs: &Addrs) -> Value {
    match a {
        None => json!([]),
        Some(x) => json!([amt(x, cs)]),
    }
}

fn opt_str(x: &Option<String>) -> Value {
    match x {
        None => json!([]),
        Some(t) => json!([t]),
    }
}

fn walk(a: &Account, path: Vec<String>, out: &mut HashMap<usize, Vec<String>>) {
    for (key, child) in &a.accounts {
        let child: &Account = child;
        let mut p = path.clone();
        p.push(key.clone());
        walk(child, p, out);
    }
    out.insert(addr(a as *const Account), path);
}

fn observe(j: &Journal, groups: &[String], known: &[String]) -> Value {
    let cs = commodity_addrs(j, known);
    let mut paths: HashMap<usize, Vec<String>> = HashMap::new();
    walk(&j.master, vec![], &mut paths);
    let bad = vec!["\u{1}unknown".to_string()];
    let path_of = |p: *const Account| -> Vec<String> { paths.get(&addr(p)).unwrap_or(&bad).clone() };
    let mut obs = serde_json::Map::new();
    let has = |g: &str| groups.iter().any(|x| x == g);

    // the balances are computed before the rest on purpose, and the reports again after it.
    if has("xacts") {
        let mut xs = vec![];
        for x in &j.xacts {
            let mut ps = vec![];
            for p in &x.posts {
                ps.push(json!({
                    "acct": path_of(p.account),
                    "amt": opt_amt(&p.amount, &cs),
                    "cost": opt_amt(&p.cost, &cs),
                    "note": opt_str(&p.note),
                    "xok": p.xact_ptr == x as *const _,
                }));
            }
            xs.push(json!({
                "date": x.date.map(|d| vec![date_json(d)]).unwrap_or_default(),
                "aux": x.aux_date.map(|d| vec![date_json(d)]).unwrap_or_default(),
                "payee": x.payee, "note": opt_str(&x.note), "posts": ps,
            }));
        }
        obs.insert("xacts".into(), json!(xs));
        let all: Vec<usize> = j.all_posts().into_iter().map(|p| addr(p as *const _)).collect();
        let listed: Vec<usize> =
            j.xacts.iter().flat_map(|x| x.posts.iter()).map(|p| addr(p as *const _)).collect();
        obs.insert("allposts".into(), json!(all == listed));
    }
    if has("accts") {
        let mut index: HashMap<usize, [usize; 2]> = HashMap::new();
        for (xi, x) in j.xacts.iter().enumerate() {
            for (pi, p) in x.posts.iter().enumerate() {
                index.insert(addr(p as *const _), [xi + 1, pi + 1]);
            }
        }
        let mut accts = vec![];
        for a in j.master.flatten_account_tree() {
            let links: Vec<[usize; 2]> =
                a.posts.iter().map(|p| *index.get(&addr(*p)).unwrap_or(&[0, 0])).collect();
            // with a wrong link the balances would read invalid memory.
            let sane = links.iter().all(|l| l[0] != 0);
            let mut v = json!({"path": path_of(a), "name": a.name, "full": a.fullname(), "links": links});
            if sane && has("bal") {
                let own: Vec<Value> = a.amount().amounts.iter().map(|x| amt(x, &cs)).collect();
                v["own"] = json!(own);
            }
            accts.push(v);
        }
        let sane = accts.iter().all(|v| v["links"].as_array().unwrap().iter().all(|l| l[0] != 0));
        if sane && has("bal") {
            for (i, a) in j.master.flatten_account_tree().iter().enumerate() {
                let total: Vec<Value> = a.total().amounts.iter().map(|x| amt(x, &cs)).collect();
                accts[i]["total"] = json!(total);
            }
        }
        obs.insert("accts".into(), json!(accts));
        obs.insert("nodes".into(), json!(paths.len()));
        if sane && has("report") {
            obs.insert("report".into(), json!(report::balance_report(j)));
        }
    }
    if has("areport") {
        obs.insert("areport".into(), json!(report::report_accounts(j)));
    }
    if has("pool") {
        let mut syms = symbols(j, known);
        syms.sort();
        obs.insert("pool".into(), json!(syms));
        obs.insert("poollen".into(), json!(j.commodity_pool.len()));
        obs.insert("poolok".into(), json!(cs.values().all(|n| !n.starts_with('\u{1}'))));
    }
    #[cfg(ledger_verif)]
    if has("prices") {
        let name = |p: *const Commodity| -> String {
            cs.get(&addr(p)).cloned().unwrap_or("\u{1}unknown".into())
        };
        let mut ps: Vec<(String, String, NaiveDateTime, Quantity)> =
            ledger_rs_lib::verif::prices(&j.commodity_pool)
                .into_iter()
                .map(|(a, b, t, q)| (name(a), name(b), t, q))
                .collect();
        ps.sort();
        let ps: Vec<Value> = ps
            .into_iter()
            .map(|(a, b, t, q)| json!({"s": a, "d": b, "t": dt_json(t), "q": q.to_string()}))
            .collect();
        obs.insert("prices".into(), json!(ps));
        obs.insert(
            "nnodes".into(),
            json!(ledger_rs_lib::verif::graph_nodes(&j.commodity_pool)
                .into_iter()
                .map(name)
                .collect::<Vec<_>>()),
        );
    }
    Value::Object(obs)
}

fn mk_amount(v: &Value, j: &mut Journal) -> Amount {
    let q = Quantity::from_str(s(v, "q")).expect("harness quantity");
    let c = s(v, "c");
    if c.is_empty() {
        Amount::new(q, None)
    } else {
        let p = j.commodity_pool.find_or_create(c, None);
        Amount::new(q, Some(p))
    }
}

fn strings(v: &Value) -> Vec<String> {
    v.as_array()
        .map(|a| a.iter().map(|x| x.as_str().unwrap_or("").to_string()).collect())
        .unwrap_or_default()
}

fn usizes(v: &Value) -> Vec<usize> {
    v.as_array()
        .map(|a| a.iter().map(|x| x.as_u64().unwrap_or(1) as usize).collect())
        .unwrap_or_default()
}

#[cfg(feature = "api")]
/// A transaction made with the functions of the library instead of text.
fn build_xact(v: &Value, j: &mut Journal) {
    let mut x = ledger_rs_lib::xact::Xact::create(s(v, "date"), s(v, "aux"), s(v, "payee"), s(v, "note"));
    let body = v["body"].as_array().unwrap();
    let mut given_note = false;
    for (i, b) in body.iter().enumerate() {
        if b["k"] == "note" {
            // the first note of a posting was handed to its constructor
            if std::mem::take(&mut given_note) {
                continue;
            }
            match x.posts.last_mut() {
                Some(post) => post.add_note(s(b, "note")),
                None => x.add_note(s(b, "note")),
            }
            continue;
        }
        let account = j.register_account(s(b, "acct")).expect("an account");
        let mut given = |text: &str| if text.is_empty() { None } else { parser::parse_amount(text, j) };
        let amount = given(s(b, "amt"));
        let mut cost = given(s(b, "cost"));
        if b["per"].as_bool().unwrap_or(false) {
            let mut total = cost.unwrap();
            total *= amount.unwrap();
            cost = Some(total);
        }
        let note = body.get(i + 1).filter(|n| n["k"] == "note").map(|n| s(n, "note"));
        given_note = note.is_some();
        x.add_post(ledger_rs_lib::post::Post::new(account, std::ptr::null(), amount, cost, note));
    }
    let added = j.add_xact(x) as *const _;
    ledger_rs_lib::xact::finalize(added, j);
}

/// One operation. Returns the result; a panic is handled by the caller.
fn execute(op: &Value, slots: &mut HashMap<u64, Box<Journal>>, known: &[String]) -> Value {
    let slot = op["slot"].as_u64().unwrap_or(0);
    let j: &mut Journal = slots.entry(slot).or_insert_with(|| Box::new(Journal::new()));
    match s(op, "op") {
        "read" => {
            let text = s(op, "text");
            let before = j.xacts.len();
            let n = match s(op, "via") {
                "text" => {
                    parse_text(text, j);
                    j.xacts.len() - before
                }
                "file" => {
                    parse_file(s(op, "file"), j);
                    j.xacts.len() - before
                }
                #[cfg(feature = "api")]
                "api" => {
                    build_xact(&op["x"], j);
                    j.xacts.len() - before
                }
                "cursor" => j.read(Cursor::new(text.to_string())),
                _ => j.read(Portions {
                    bytes: match op["bytes"].as_array() {
                        Some(b) => b.iter().map(|x| x.as_u64().unwrap() as u8).collect(),
                        None => text.as_bytes().to_vec(),
                    },
                    pos: 0,
                    sizes: usizes(&op["sizes"]),
                    n: 0,
                    interrupt: op["interrupt"].as_bool().unwrap_or(false),
                    interrupted: false,
                    fail: op["fail"].as_bool().unwrap_or(false),
                    kind: op["kind"].as_u64().unwrap_or(0) as usize,
                }),
            };
            json!({"count": n})
        }
        "reg" => {
            let p = j.register_account(s(op, "name")).expect("an account");
            let mut paths = HashMap::new();
            walk(&j.master, vec![], &mut paths);
            match paths.get(&addr(p)) {
                Some(path) => json!({"path": path}),
                None => json!({"path": ["\u{1}unknown"]}),
            }
        }
        "find" => {
            let found = j.find_account(s(op, "name")).map(|a| a as *const Account);
            let mut paths = HashMap::new();
            walk(&j.master, vec![], &mut paths);
            match found {
                None => json!({"found": []}),
                Some(p) => match paths.get(&addr(p)) {
                    Some(path) => json!({"found": [path]}),
                    None => json!({"found": [["\u{1}unknown"]]}),
                },
            }
        }
        #[cfg(feature = "cfind")]
        "cfind" => {
            let sym = s(op, "sym");
            let found: Vec<String> = j.commodity_pool.find(sym).iter().map(|c| c.symbol.clone()).collect();
            let same = match j.commodity_pool.find_index(sym) {
                Some(i) => match j.commodity_pool.find(sym) {
                    Some(c) => j.get_commodity(i) as *const Commodity == c as *const Commodity,
                    None => false,
                },
                None => j.commodity_pool.find(sym).is_none(),
            };
            json!({"found": found, "same": same})
        }
        #[cfg(ledger_verif)]
        "price" => {
            let cs = commodity_addrs(j, known);
            match ledger_rs_lib::verif::find_price(
                &j.commodity_pool,
                s(op, "s"),
                s(op, "d"),
                moment(&op["moment"]),
            ) {
                None => json!({"found": []}),
                Some((t, a)) => json!({"found": [{"t": dt_json(t), "a": amt(&a, &cs)}]}),
            }
        }
        #[cfg(feature = "exch")]
        "exch" => {
            let a = mk_amount(&op["a"], j);
            let c = mk_amount(&op["b"], j);
            let (b, p) = j.commodity_pool.exchange(
                &a,
                &c,
                op["per"].as_bool().unwrap(),
                moment(&op["moment"]),
            );
            let cs = commodity_addrs(j, known);
            let price: Vec<Value> = p
                .iter()
                .map(|p| {
                    json!({"s": cs.get(&addr(p.commodity)).cloned().unwrap_or("\u{1}unknown".into()),
                           "t": dt_json(p.datetime), "a": amt(&p.price, &cs)})
                })
                .collect();
            json!({"amount": amt(&b.amount, &cs), "final": amt(&b.final_cost, &cs),
                   "basis": amt(&b.basis_cost, &cs), "price": price})
        }
        "run" => json!({"lines": run(strings(&op["args"]))}),
        "runcmd" => json!({"lines": run_command(s(op, "cmd"))}),
        #[cfg(feature = "pamt")]
        "pamt" => {
            let r = parser::parse_amount(s(op, "text"), j);
            let cs = commodity_addrs(j, known);
            json!({"amt": opt_amt(&r, &cs)})
        }
        #[cfg(feature = "arith")]
        "arith" => {
            let a = mk_amount(&op["a"], j);
            let b = mk_amount(&op["b"], j);
            let cs = commodity_addrs(j, known);
            let (a0, b0) = (a, b);
            let r: Amount = match s(op, "f") {
                "add" => a + b,
                "add_assign" => {
                    let mut x = a;
                    x += b;
                    x
                }
                "add_method" => {
                    let mut x = a;
                    Amount::add(&mut x, &b);
                    x
                }
                "sub_assign" => {
                    let mut x = a;
                    x -= b;
                    x
                }
                "mul" => a * b,
                "mul_assign" => {
                    let mut x = a;
                    x *= b;
                    x
                }
                "div" => a / b,
                "abs" => a.abs(),
                "inverse" => a.inverse(),
                "invert" => {
                    let mut x = a;
                    x.invert();
                    x
                }
                "inverse2" => a.inverse().inverse(),
                "copy" => Amount::copy_from(&a),
                "remove" => {
                    let mut x = a;
                    x.remove_commodity();
                    x
                }
                "qadd" => {
                    let mut q = a.quantity;
                    q += b.quantity;
                    Amount::new(q, None)
                }
                "qsub" => {
                    let mut q = a.quantity;
                    q -= b.quantity;
                    Amount::new(q, None)
                }
                "qmul" => Amount::new(a.quantity * b.quantity, None),
                "qmul_assign" => {
                    let mut q = a.quantity;
                    q *= b.quantity;
                    Amount::new(q, None)
                }
                "qdiv" => Amount::new(a.quantity / b.quantity, None),
                "qadd2" => Amount::new(a.quantity + b.quantity, None),
                "null" => Amount::null(),
                other => panic!("harness: {}", other),
            };
            json!({"amt": amt(&r, &cs), "zero": r.is_zero(), "null": r.is_null(),
                   "same": a == a0 && b == b0,
                   "eq": a == b, "lt": a.quantity < b.quantity, "positive": a.quantity.is_sign_positive()})
        }
        // terms of a balance
        #[cfg(feature = "bal")]
        "bal" => {
            let mut b = Account::new("scratch").amount();
            for t in op["terms"].as_array().unwrap() {
                match s(t, "f") {
                    "add" => b.add(&mk_amount(t, j)),
                    "add_assign" => b += mk_amount(t, j),
                    "sub_assign" => b -= mk_amount(t, j),
                    _ => {
                        let mut other = Account::new("scratch").amount();
                        for a in t["as"].as_array().unwrap() {
                            other.add(&mk_amount(a, j));
                        }
                        b += other;
                    }
                }
            }
            let cs = commodity_addrs(j, known);
            json!({"amts": b.amounts.iter().map(|x| amt(x, &cs)).collect::<Vec<_>>()})
        }
        // a price through the interface of the pool
        #[cfg(feature = "addprice")]
        "addprice" => {
            let t = moment(&op["moment"]);
            if s(op, "f") == "line" {
                j.commodity_pool.parse_price_directive(s(op, "text"));
            } else {
                let c = j.commodity_pool.find_or_create(s(op, "s"), None);
                let price = mk_amount(&op["a"], j);
                if s(op, "f") == "struct" {
                    j.commodity_pool.add_price_struct(ledger_rs_lib::history::Price::new(c, t, price));
                } else {
                    j.commodity_pool.add_price(c, t, price);
                }
            }
            json!({})
        }
        // conversions of quantities
        #[cfg(feature = "qconv")]
        "qconv" => {
            let n = op["n"].as_i64().unwrap() as i32;
            let from = Quantity::from(n);
            let back: i32 = from.into();
            let text = s(op, "text");
            let amount: Amount = n.into();
            json!({"from": from.to_string(), "back": back, "amount": amount.quantity.to_string(),
                   "plain": amount.get_commodity().is_none(),
                   "parsed": Quantity::from_str(text).map(|q| vec![q.to_string()]).unwrap_or_default(),
                   "text": Quantity::from(text).to_string()})
        }
        "obs" => json!({}),
        other => json!({"unsupported": other}),
    }
}

/// No scenario has texts of this length; what went wrong can be seen from the beginning.
fn shorten(v: &mut Value) {
    match v {
        Value::String(t) if t.len() > 60000 => {
            *t = t.chars().take(1000).collect::<String>() + "\u{1}too long";
        }
        Value::Array(a) => a.iter_mut().for_each(shorten),
        Value::Object(o) => o.values_mut().for_each(shorten),
        _ => (),
    }
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let first: usize = args[3].parse().unwrap();
    let step: usize = args[4].parse().unwrap();
    let mut out = std::fs::OpenOptions::new().append(true).create(true).open(&args[2]).unwrap();
    std::panic::set_hook(Box::new(|_| {}));
    let file = BufReader::new(std::fs::File::open(&args[1]).unwrap());
    for (i, line) in file.lines().enumerate() {
        let line = line.unwrap();
        if i < first || (i - first) % step != 0 {
            continue;
        }
        let sc: Value = serde_json::from_str(&line).unwrap();
        let known = strings(&sc["syms"]);
        let groups = strings(&sc["groups"]);
        let mut slots: HashMap<u64, Box<Journal>> = HashMap::new();
        let mut results = vec![];
        for op in sc["ops"].as_array().unwrap() {
            let mut r = match catch_unwind(AssertUnwindSafe(|| execute(op, &mut slots, &known))) {
                Ok(v) => json!({"res": "ok", "v": v}),
                Err(e) => {
                    let msg = e
                        .downcast_ref::<String>()
                        .cloned()
                        .or_else(|| e.downcast_ref::<&str>().map(|x| x.to_string()))
                        .unwrap_or_default();
                    json!({"res": "panic", "msg": msg})
                }
            };
            if op["obs"].as_bool().unwrap_or(false) {
                let slot = op["slot"].as_u64().unwrap_or(0);
                let j: &Journal = slots.entry(slot).or_insert_with(|| Box::new(Journal::new()));
                match catch_unwind(AssertUnwindSafe(|| observe(j, &groups, &known))) {
                    Ok(v) => r["obs"] = v,
                    Err(_) => r["obs"] = json!({"failed": true}),
                }
            }
            results.push(r);
        }
        let mut line = json!({"id": sc["id"], "r": results});
        shorten(&mut line);
        let mut text = serde_json::to_string(&line).unwrap();
        text.push('\n');
        out.write_all(text.as_bytes()).unwrap();
        // journals with damaged links may crash when dropped: the result is already written.
        drop(slots);
    }
}
