//! Names for accounts, construction of the initial accounts, and the
//! projection of account contents to the state the specification talks about.

use crate::svm::{Acct, Bank};
use anchor_lang::prelude::*;
use anchor_lang::solana_program::{
    bpf_loader_upgradeable, program_option::COption, program_pack::Pack,
    rent::Rent, system_program, sysvar,
};
use serde_json::{json, Map, Value};
use sha2::{Digest, Sha256};
use spl_token::state::{Account as Tok, AccountState, Mint};
use std::collections::HashMap;

pub const FARM_SIZE: usize = 19160;

#[derive(Clone, Default)]
pub struct World {
    pub bank: Bank,
    names: HashMap<Pubkey, String>,
    keys: HashMap<String, Pubkey>,
    /// last projection of each account
    pub seen: HashMap<String, Value>,
    raw: HashMap<String, Acct>,
}

pub fn sha(parts: &[&[u8]]) -> [u8; 32] {
    let mut h = Sha256::new();
    for p in parts {
        h.update(p);
    }
    h.finalize().into()
}

fn disc(name: &str) -> [u8; 8] {
    sha(&[b"account:", name.as_bytes()])[..8].try_into().unwrap()
}

/// A second entry of the same mint stays visible.
fn insert(map: &mut Map<String, Value>, mut key: String, v: Value) {
    while map.contains_key(&key) {
        key.push('#');
    }
    map.insert(key, v);
}

fn u64_at(d: &[u8], at: usize) -> u64 {
    u64::from_le_bytes(d[at..at + 8].try_into().unwrap())
}

fn big(limbs: [u64; 3]) -> Value {
    // decimal digits of a 192 bit number
    let mut l = limbs;
    let mut digits = vec![];
    while l != [0, 0, 0] {
        let mut rem = 0u128;
        for i in (0..3).rev() {
            let cur = (rem << 64) | l[i] as u128;
            l[i] = (cur / 10) as u64;
            rem = cur % 10;
        }
        digits.push(b'0' + rem as u8);
    }
    if digits.is_empty() {
        digits.push(b'0');
    }
    digits.reverse();
    serde_json::from_slice(&digits).unwrap()
}

impl World {
    /// The key an account name stands for. Names of program derived addresses
    /// spell out their derivation, eg. `sv:F0` is the stake vault of `F0`.
    pub fn key(&mut self, name: &str) -> Pubkey {
        if let Some(k) = self.keys.get(name) {
            return *k;
        }
        let p: Vec<&str> = name.split(':').collect();
        let k = match p[..] {
            [""] => Pubkey::default(),
            ["token_program"] => spl_token::ID,
            ["system_program"] => system_program::ID,
            ["rent"] => sysvar::rent::ID,
            ["amm_program"] => crate::amm::ID,
            ["toll"] => self.pda(&crate::amm::ID, b"toll", &[]),
            ["dset"] => self.pda(&crate::amm::ID, b"discount_settings", &[]),
            ["fs", f] => self.pda(&crate::farming::ID, b"signer", &[f]),
            ["sv", f] => self.pda(&crate::farming::ID, b"stake_vault", &[f]),
            ["hv", f, m] => self.pda(&crate::farming::ID, b"harvest_vault", &[f, m]),
            ["fm", f, u] => self.pda(&crate::farming::ID, b"farmer", &[f, u]),
            ["wl", f, g] => {
                self.pda(&crate::farming::ID, b"whitelist_compounding", &[f, g])
            }
            ["ps", p] => self.pda(&crate::amm::ID, b"signer", &[p]),
            ["disc", u] => self.pda(&crate::amm::ID, b"discount", &[u]),
            _ => Pubkey::new(&sha(&[b"key:", name.as_bytes()])),
        };
        self.names.insert(k, name.to_string());
        self.keys.insert(name.to_string(), k);
        k
    }

    fn pda(&mut self, program: &Pubkey, prefix: &[u8], of: &[&str]) -> Pubkey {
        let keys: Vec<Pubkey> = of.iter().map(|n| self.key(n)).collect();
        let mut seeds: Vec<&[u8]> = vec![prefix];
        seeds.extend(keys.iter().map(|k| k.as_ref()));
        Pubkey::find_program_address(&seeds, program).0
    }

    pub fn name(&self, k: &[u8]) -> String {
        let k = Pubkey::new(k);
        if k == Pubkey::default() {
            return String::new();
        }
        self.names
            .get(&k)
            .cloned()
            .unwrap_or_else(|| format!("?{}", &k.to_string()[..8]))
    }

    fn put(&mut self, name: &str, owner: Pubkey, data: Vec<u8>) {
        let key = self.key(name);
        self.bank.accts.insert(
            key,
            Acct {
                lamports: Rent::default().minimum_balance(data.len()).max(1),
                data,
                owner,
                executable: false,
            },
        );
    }

    /// Accounts which exist before the programs are first called.
    pub fn setup(&mut self, x: &Value) {
        *self = World::default();
        let list = |k: &str| -> Vec<Value> {
            x.get(k).and_then(|v| v.as_array()).cloned().unwrap_or_default()
        };
        let s = |v: &Value, k: &str| -> String {
            v.get(k).and_then(|v| v.as_str()).unwrap_or("").to_string()
        };
        let n = |v: &Value, k: &str| -> u64 {
            v.get(k).and_then(|v| v.as_u64()).unwrap_or(0)
        };

        for p in ["token_program", "system_program", "amm_program"] {
            self.put(p, bpf_loader_upgradeable::ID, vec![]);
            let key = self.key(p);
            self.bank.accts.get_mut(&key).unwrap().executable = true;
        }
        let rent = bincode::serialize(&Rent::default()).unwrap();
        self.put("rent", sysvar::ID, rent);
        if let Some(auth) = x.get("upgrade_authority") {
            let data_key = self.key("amm_data");
            let auth = self.key(auth.as_str().unwrap());
            let mut d = vec![2, 0, 0, 0];
            d.extend_from_slice(data_key.as_ref());
            self.put("amm_program", bpf_loader_upgradeable::ID, d);
            let key = self.key("amm_program");
            self.bank.accts.get_mut(&key).unwrap().executable = true;
            let mut d = vec![3, 0, 0, 0];
            d.extend_from_slice(&7u64.to_le_bytes());
            d.push(1);
            d.extend_from_slice(auth.as_ref());
            self.put("amm_data", bpf_loader_upgradeable::ID, d.clone());
            // the program data account of some other program, whose upgrade
            // authority is the attacker
            let other = self.key("mallory");
            let l = d.len();
            d[l - 32..].copy_from_slice(other.as_ref());
            self.put("other_data", bpf_loader_upgradeable::ID, d);
        }
        for u in list("users") {
            let key = self.key(u.as_str().unwrap());
            self.bank.accts.insert(
                key,
                Acct {
                    lamports: 1 << 50,
                    owner: system_program::ID,
                    ..Acct::default()
                },
            );
        }
        for m in list("mints") {
            let auth = s(&m, "auth");
            let freeze = s(&m, "freeze");
            let mint = Mint {
                mint_authority: if auth.is_empty() {
                    COption::None
                } else {
                    COption::Some(self.key(&auth))
                },
                supply: n(&m, "supply"),
                decimals: n(&m, "decimals") as u8,
                is_initialized: true,
                freeze_authority: if freeze.is_empty() {
                    COption::None
                } else {
                    COption::Some(self.key(&freeze))
                },
            };
            let mut d = vec![0; Mint::LEN];
            mint.pack_into_slice(&mut d);
            self.put(&s(&m, "n"), spl_token::ID, d);
        }
        for t in list("toks") {
            let opt = |w: &mut World, k: &str| {
                let v = s(&t, k);
                if v.is_empty() {
                    COption::None
                } else {
                    COption::Some(w.key(&v))
                }
            };
            let tok = Tok {
                mint: self.key(&s(&t, "mint")),
                owner: self.key(&s(&t, "own")),
                amount: n(&t, "amt"),
                delegate: opt(self, "delegate"),
                state: if n(&t, "frozen") == 1 {
                    AccountState::Frozen
                } else {
                    AccountState::Initialized
                },
                is_native: COption::None,
                delegated_amount: n(&t, "dam"),
                close_authority: opt(self, "close"),
            };
            let mut d = vec![0; Tok::LEN];
            tok.pack_into_slice(&mut d);
            self.put(&s(&t, "n"), spl_token::ID, d);
        }
        for f in list("farms") {
            // allocated, not yet initialized
            let name = f.as_str().unwrap().to_string();
            self.put(&name, crate::farming::ID, vec![0; FARM_SIZE]);
        }
    }

    /// What the specification sees of an account; `null` if nothing.
    pub fn project(&self, a: &Acct) -> Value {
        let d = &a.data[..];
        if a.owner == spl_token::ID {
            if d.len() == Tok::LEN && d[108] != 0 {
                let t = Tok::unpack_from_slice(d).unwrap();
                // what could take tokens from the account besides its owner
                let mut x = String::new();
                if t.delegate.is_some() {
                    x.push('d');
                }
                if t.close_authority.is_some() {
                    x.push('c');
                }
                if t.state == AccountState::Frozen {
                    x.push('f');
                }
                let mut tok = json!({
                    "k": "tok",
                    "mint": self.name(t.mint.as_ref()),
                    "own": self.name(t.owner.as_ref()),
                    "amt": t.amount,
                    "x": x,
                });
                if let COption::Some(u) = &t.delegate {
                    tok["del"] = json!(self.name(u.as_ref()));
                    tok["dam"] = json!(t.delegated_amount);
                }
                return tok;
            }
            if d.len() == Mint::LEN && d[45] != 0 {
                let m = Mint::unpack_from_slice(d).unwrap();
                let opt = |k: &COption<Pubkey>| match k {
                    COption::Some(k) => self.name(k.as_ref()),
                    COption::None => String::new(),
                };
                return json!({
                    "k": "mint",
                    "supply": m.supply,
                    "auth": opt(&m.mint_authority),
                    "freeze": opt(&m.freeze_authority),
                });
            }
        } else if a.owner == crate::farming::ID && d.len() >= 8 {
            if d[..8] == [0; 8] && d.len() == FARM_SIZE {
                return json!({"k": "zero"});
            }
            if d[..8] == disc("Farm") && d.len() == FARM_SIZE {
                return self.project_farm(d);
            }
            if d[..8] == disc("Farmer") && d.len() >= 504 {
                let mut har = Map::new();
                for at in (0..10).map(|i| 104 + i * 40) {
                    if d[at..at + 32] != [0; 32] {
                        let mint = self.name(&d[at..at + 32]);
                        insert(&mut har, mint, json!(u64_at(d, at + 32)));
                    }
                }
                return json!({
                    "k": "farmer",
                    "auth": self.name(&d[8..40]),
                    "farm": self.name(&d[40..72]),
                    "staked": u64_at(d, 72),
                    "vested": u64_at(d, 80),
                    "vestedAt": u64_at(d, 88),
                    "next": u64_at(d, 96),
                    "har": har,
                });
            }
            if d[..8] == disc("WhitelistCompounding") {
                return json!({"k": "wl"});
            }
        } else if a.owner == crate::amm::ID && d.len() >= 8 {
            if d[..8] == disc("Pool") {
                return self.project_pool(d);
            }
            if d[..8] == disc("Discount") {
                return json!({
                    "k": "disc",
                    "amt": u64_at(d, 8),
                    "until": u64_at(d, 16),
                });
            }
            if d[..8] == disc("DiscountSettings") {
                return json!({"k": "dset", "auth": self.name(&d[8..40])});
            }
            if d[..8] == disc("ProgramToll") {
                return json!({"k": "toll", "auth": self.name(&d[8..40])});
            }
        }
        Value::Null
    }

    fn project_farm(&self, d: &[u8]) -> Value {
        let mut harvests = Map::new();
        for i in 0..10 {
            let at = 104 + i * 304;
            if d[at..at + 32] == [0; 32] {
                continue;
            }
            let mut periods = vec![];
            for p in 0..10 {
                let at = at + 64 + p * 24;
                let (tps, s, e) =
                    (u64_at(d, at), u64_at(d, at + 8), u64_at(d, at + 16));
                if (tps, s, e) != (0, 0, 0) {
                    periods.push(json!({"tps": tps, "s": s, "e": e}));
                }
            }
            let mint = self.name(&d[at..at + 32]);
            let vault = self.name(&d[at + 32..at + 64]);
            insert(&mut harvests, mint, json!({"vault": vault, "per": periods}));
        }
        let tip = u64_at(d, 3144) as usize;
        let mut hist = vec![];
        for i in 1..=1000 {
            let at = 3152 + ((tip + i) % 1000) * 16;
            let (staked, s) = (u64_at(d, at), u64_at(d, at + 8));
            if (staked, s) != (0, 0) {
                hist.push(json!([s, staked]));
            }
        }
        json!({
            "k": "farm",
            "admin": self.name(&d[8..40]),
            "mint": self.name(&d[40..72]),
            "vault": self.name(&d[72..104]),
            "win": u64_at(d, 19152),
            "harvests": harvests,
            "hist": hist,
        })
    }

    fn project_pool(&self, d: &[u8]) -> Value {
        let dim = u64_at(d, 136) as usize;
        let mut res = vec![];
        for i in 0..dim.min(4) {
            let at = 144 + i * 72;
            res.push(json!({
                "tok": u64_at(d, at),
                "mint": self.name(&d[at + 8..at + 40]),
                "vault": self.name(&d[at + 40..at + 72]),
            }));
        }
        let at = 144 + 4 * 72;
        let (amp, inv, fee) = if d[at] == 0 {
            (0, json!(0), u64_at(d, at + 1))
        } else {
            (
                u64_at(d, at + 1),
                big([
                    u64_at(d, at + 9),
                    u64_at(d, at + 17),
                    u64_at(d, at + 25),
                ]),
                u64_at(d, at + 33),
            )
        };
        json!({
            "k": "pool",
            "admin": self.name(&d[8..40]),
            "signer": self.name(&d[40..72]),
            "lp": self.name(&d[72..104]),
            "toll": self.name(&d[104..136]),
            "dim": dim,
            "res": res,
            "stable": d[at] != 0,
            "amp": amp,
            "inv": inv,
            "fee": fee,
        })
    }

    /// Everything the specification sees.
    pub fn full(&mut self) -> Map<String, Value> {
        let mut out = Map::new();
        for (k, a) in &self.bank.accts {
            let v = self.project(a);
            if !v.is_null() {
                out.insert(self.name(k.as_ref()), v);
            }
        }
        self.seen = out.clone().into_iter().collect();
        out
    }

    /// What changed in the given accounts since they were last looked at.
    pub fn diff(&mut self, names: &[String]) -> (Map<String, Value>, Vec<String>) {
        let mut up = Map::new();
        let mut gone = vec![];
        for n in names {
            let key = self.key(n);
            let new = match self.bank.accts.get(&key) {
                Some(a) => {
                    if self.raw.get(n) == Some(a) {
                        continue;
                    }
                    self.raw.insert(n.clone(), a.clone());
                    self.project(a)
                }
                None => {
                    self.raw.remove(n);
                    Value::Null
                }
            };
            let old = self.seen.get(n).cloned().unwrap_or(Value::Null);
            if new == old || up.contains_key(n) {
                continue;
            }
            if new.is_null() {
                gone.push(n.clone());
                self.seen.remove(n);
                continue;
            }
            self.seen.insert(n.clone(), new.clone());
            let mut shown = new;
            if shown["k"] == "farm" && old["k"] == "farm" {
                // the history is long, say how it changed
                let was = old["hist"].as_array().unwrap();
                let is = shown["hist"].as_array().unwrap();
                let mut drop = 0;
                while !is.starts_with(&was[drop..]) {
                    drop += 1;
                }
                let add = is[was.len() - drop..].to_vec();
                let o = shown.as_object_mut().unwrap();
                o.remove("hist");
                o.insert("hdrop".into(), json!(drop));
                o.insert("hadd".into(), json!(add));
            }
            up.insert(n.clone(), shown);
        }
        (up, gone)
    }
}
