//! The instructions of both programs: their accounts in order and arguments.

use crate::svm::Meta;
use crate::world::{sha, World};
use serde_json::{json, Value};

/// name, program, accounts (`*` marks those passed as writable), arguments
type Op = (&'static str, char, &'static str, &'static str);

const OPS: &[Op] = &[
    ("create_farm", 'f', "admin* farm* signer* mint vault* token_program system_program rent", ""),
    ("add_harvest", 'f', "admin* farm* signer mint vault* token_program system_program rent", ""),
    ("remove_harvest", 'f', "admin* farm* signer vault* token_program", "mint:k"),
    ("set_farm_owner", 'f', "admin new farm*", ""),
    ("new_harvest_period", 'f', "admin farm* wallet* vault* signer token_program", "mint:k starts:n len:n tps:n"),
    ("take_snapshot", 'f', "farm* vault", ""),
    ("set_min_snapshot_window", 'f', "admin farm*", "win:n"),
    ("create_farmer", 'f', "payer* authority farmer* farm system_program", ""),
    ("close_farmer", 'f', "authority* farmer*", ""),
    ("start_farming", 'f', "authority farmer* wallet* farm vault* token_program", "amt:n"),
    ("stop_farming", 'f', "authority farmer* wallet* farm signer vault* token_program", "amt:n"),
    ("update_eligible_harvest", 'f', "farm farmer*", ""),
    ("update_eligible_harvest_until", 'f', "farm farmer*", "until:n"),
    ("claim_eligible_harvest", 'f', "authority farmer* signer token_program", ""),
    ("whitelist_farm_for_compounding", 'f', "admin* source target wl* system_program", ""),
    ("dewhitelist_farm_for_compounding", 'f', "admin* source target wl* system_program", ""),
    ("compound_same_farm", 'f', "farm signer wl svault* hvault* farmer* token_program", ""),
    ("compound_across_farms", 'f', "source target signer wl svault* hvault* sfarmer* tfarmer* token_program", ""),
    ("airdrop", 'f', "authority farmer* wallet* vault* token_program", "amt:n"),
    ("create_program_toll", 'a', "authority* program data toll_authority toll* system_program", ""),
    ("create_discount_settings", 'a', "authority* program data settings_authority dset* system_program", ""),
    ("create_pool", 'a', "admin* pool* signer toll toll_wallet lp token_program system_program", "amp:n"),
    ("put_discount", 'a', "authority* discount* dset system_program", "user:k amt:n until:n"),
    ("set_pool_swap_fee", 'a', "admin pool*", "fee:n"),
    ("deposit_liquidity", 'a', "user pool* signer lp* lp_wallet* token_program", "max:l"),
    ("redeem_liquidity", 'a', "user pool* signer lp* lp_wallet* token_program", "lp:n min:l"),
    ("swap", 'a', "user discount pool* signer sell_wallet* buy_wallet* sell_vault* buy_vault* lp* toll_wallet* token_program", "sell:n min:n"),
    // a plain token transfer, which involves none of the two programs
    ("transfer", 't', "from* to* authority", "amt:n"),
];


fn num(v: &Value) -> u64 {
    v.as_u64().unwrap_or_else(|| panic!("not a u64: {}", v))
}

/// Executes an event and returns it with what was observed.
pub fn exec(w: &mut World, e: &Value) -> Value {
    let mut out = e.as_object().unwrap().clone();
    for k in ["ok", "err", "up", "gone"] {
        out.remove(k);
    }
    let a = e["a"].as_str().unwrap();
    if a == "init" {
        w.setup(&e["x"]);
        w.bank.slot = num(&e["slot"]);
        out.insert("ok".into(), json!(true));
        out.insert("up".into(), Value::Object(w.full()));
        out.insert("gone".into(), json!([]));
        return Value::Object(out);
    }
    let (_, program, accounts, args) = OPS
        .iter()
        .find(|o| o.0 == a)
        .unwrap_or_else(|| panic!("unknown operation {}", a));
    w.bank.slot = num(&e["slot"]);
    let sig: Vec<&str> = e["sig"]
        .as_array()
        .map(|s| s.iter().map(|n| n.as_str().unwrap()).collect())
        .unwrap_or_default();
    let mut names: Vec<String> = vec![];
    let mut metas = vec![];
    for r in accounts.split(' ') {
        let writable = r.ends_with('*');
        let r = r.trim_end_matches('*');
        let n = match e["acc"].get(r).and_then(|v| v.as_str()) {
            Some(n) => n.to_string(),
            None => match r {
                "token_program" | "system_program" | "rent" => r.to_string(),
                _ => panic!("{}: account {} not given", a, r),
            },
        };
        metas.push(Meta {
            key: w.key(&n),
            signer: sig.contains(&&n[..]),
            writable,
        });
        names.push(n);
    }
    for n in e["rem"].as_array().unwrap_or(&vec![]) {
        let n = n.as_str().unwrap().to_string();
        metas.push(Meta {
            key: w.key(&n),
            signer: sig.contains(&&n[..]),
            writable: a != "create_pool",
        });
        names.push(n);
    }
    // programs are passed so that they can be invoked
    let mut data = vec![];
    let id = match program {
        'f' => crate::farming::ID,
        'a' => crate::amm::ID,
        _ => spl_token::ID,
    };
    if *program == 't' {
        data.push(3); // spl token's transfer
    } else {
        data.extend_from_slice(&sha(&[b"global:", a.as_bytes()])[..8]);
    }
    for arg in args.split(' ').filter(|s| !s.is_empty()) {
        let (n, t) = arg.split_once(':').unwrap();
        let v = &e["x"][n];
        match t {
            "n" => data.extend_from_slice(&num(v).to_le_bytes()),
            "k" => {
                let k = w.key(v.as_str().unwrap());
                data.extend_from_slice(k.as_ref())
            }
            _ => {
                let l = v.as_array().unwrap();
                data.extend_from_slice(&(l.len() as u32).to_le_bytes());
                for i in l {
                    let k = w.key(i["mint"].as_str().unwrap());
                    data.extend_from_slice(k.as_ref());
                    data.extend_from_slice(&num(&i["amt"]).to_le_bytes());
                }
            }
        }
    }
    let res = w.bank.process(&id, metas, &data);
    let (up, gone) = w.diff(&names);
    if res.is_err() && (!up.is_empty() || !gone.is_empty()) {
        panic!("a failed instruction changed accounts");
    }
    out.insert("ok".into(), json!(res.is_ok()));
    if let Err(logs) = res {
        out.insert("err".into(), json!(brief(&logs)));
    }
    out.insert("up".into(), Value::Object(up));
    out.insert("gone".into(), json!(gone));
    Value::Object(out)
}

/// An event at which the process dies.
pub fn crashed(e: &Value) -> Value {
    let mut out = e.clone();
    out["ok"] = json!(false);
    out["err"] = json!("the process died");
    out["up"] = json!({});
    out["gone"] = json!([]);
    out
}

/// The line of the logs which tells most about the failure.
fn brief(logs: &[String]) -> String {
    let pick = logs
        .iter()
        .find(|l| l.contains("AnchorError"))
        .or_else(|| logs.iter().find(|l| l.contains("panic")))
        .or_else(|| logs.iter().find(|l| l.contains("runtime:")))
        .or_else(|| logs.last());
    let s = pick.cloned().unwrap_or_default();
    s.chars().filter(|c| c.is_ascii() && *c != '"').take(160).collect()
}

