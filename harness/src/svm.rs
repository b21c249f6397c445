//! A minimal in-memory stand-in for the Solana runtime. It runs the real
//! programs through their entrypoints: instruction bytes and accounts in, a
//! verdict and changed accounts out. Token transfers, mints and burns are
//! executed by the real SPL token program.
//!
//! What it reproduces from the runtime: signer and writable privileges
//! (including their escalation rules in cross program invocations), program
//! derived signers, the clock and rent sysvars, creation of accounts by the
//! system program, atomicity (a failed or panicking instruction changes
//! nothing) and the rule that read-only accounts do not change.

use anchor_lang::solana_program::{
    account_info::AccountInfo, clock::Clock, entrypoint::ProgramResult,
    instruction::Instruction, program_error::ProgramError, program_stubs,
    pubkey::Pubkey, rent::Rent, system_instruction::SystemInstruction,
    system_program,
};
use std::cell::RefCell;
use std::collections::HashMap;
use std::panic;
use std::sync::mpsc;
use std::thread;
use std::time::Duration;

#[derive(Clone, Default, PartialEq, Eq)]
pub struct Acct {
    pub lamports: u64,
    pub data: Vec<u8>,
    pub owner: Pubkey,
    pub executable: bool,
}

pub struct Meta {
    pub key: Pubkey,
    pub signer: bool,
    pub writable: bool,
}

#[derive(Clone, Default)]
pub struct Bank {
    pub accts: HashMap<Pubkey, Acct>,
    pub slot: u64,
}

thread_local! {
    static SLOT: RefCell<u64> = RefCell::new(0);
    static STACK: RefCell<Vec<Pubkey>> = RefCell::new(vec![]);
    // accounts of the instruction being processed
    static PASSED: RefCell<Vec<Pubkey>> = RefCell::new(vec![]);
    static LOGS: RefCell<Vec<String>> = RefCell::new(vec![]);
    // memory which outlives a transaction's account infos
    static ARENA: RefCell<Vec<Vec<u64>>> = RefCell::new(vec![]);
}

fn err<T>(what: &str) -> std::result::Result<T, ProgramError> {
    log(format!("runtime: {}", what));
    Err(ProgramError::Custom(0xdead))
}

fn log(s: String) {
    LOGS.with(|l| l.borrow_mut().push(s));
}

/// Zeroed, 8-aligned memory.
fn alloc(len: usize) -> &'static mut [u8] {
    let mut buf = vec![0u64; (len + 7) / 8 + 1];
    let ptr = buf.as_mut_ptr() as *mut u8;
    ARENA.with(|a| a.borrow_mut().push(buf));
    unsafe { std::slice::from_raw_parts_mut(ptr, len) }
}

struct Stubs;

impl program_stubs::SyscallStubs for Stubs {
    fn sol_log(&self, message: &str) {
        log(message.to_string());
    }

    fn sol_log_data(&self, _: &[&[u8]]) {}

    unsafe fn sol_memcpy(&self, dst: *mut u8, src: *const u8, n: usize) {
        std::ptr::copy(src, dst, n);
    }

    fn sol_get_clock_sysvar(&self, var_addr: *mut u8) -> u64 {
        let clock = Clock {
            slot: SLOT.with(|s| *s.borrow()),
            ..Clock::default()
        };
        unsafe { *(var_addr as *mut Clock) = clock };
        0
    }

    fn sol_get_rent_sysvar(&self, var_addr: *mut u8) -> u64 {
        unsafe { *(var_addr as *mut Rent) = Rent::default() };
        0
    }

    fn sol_invoke_signed(
        &self,
        ix: &Instruction,
        infos: &[AccountInfo],
        seeds: &[&[&[u8]]],
    ) -> ProgramResult {
        let caller = STACK.with(|s| *s.borrow().last().unwrap());
        let mut pdas = vec![];
        for s in seeds {
            match Pubkey::create_program_address(s, &caller) {
                Ok(k) => pdas.push(k),
                Err(_) => return err("invalid signer seeds"),
            }
        }
        let mut passed: Vec<AccountInfo> = vec![];
        for m in &ix.accounts {
            let info = match infos.iter().find(|i| *i.key == m.pubkey) {
                Some(i) => i,
                None => return err("account missing in invocation"),
            };
            // privileges are those of the whole instruction, hence any
            let signer = pdas.contains(&m.pubkey)
                || infos.iter().any(|i| *i.key == m.pubkey && i.is_signer);
            let writable =
                infos.iter().any(|i| *i.key == m.pubkey && i.is_writable);
            if m.is_signer && !signer {
                return err("signer privilege escalated");
            }
            if m.is_writable && !writable {
                return err("writable privilege escalated");
            }
            let mut i = info.clone();
            i.is_signer = m.is_signer;
            i.is_writable = m.is_writable;
            passed.push(i);
        }
        if !PASSED.with(|p| p.borrow().contains(&ix.program_id)) {
            return err("invoked program is not among the accounts");
        }
        STACK.with(|s| s.borrow_mut().push(ix.program_id));
        let res = run(&ix.program_id, &passed, &ix.data);
        STACK.with(|s| s.borrow_mut().pop());
        res
    }
}

/// The infos are transmuted to 'static, which holds for the memory they refer
/// to: it is only released once the whole transaction has ended.
fn run(program: &Pubkey, infos: &[AccountInfo], data: &[u8]) -> ProgramResult {
    let infos: &'static [AccountInfo<'static>] =
        unsafe { std::mem::transmute(infos) };
    if *program == spl_token::ID {
        spl_token::processor::Processor::process(program, infos, data)
    } else if *program == system_program::ID {
        system(infos, data)
    } else if *program == crate::farming::ID {
        crate::farming::entry(program, infos, data)
    } else if *program == crate::amm::ID {
        crate::amm::entry(program, infos, data)
    } else {
        err("unknown program")
    }
}

fn system(infos: &[AccountInfo], data: &[u8]) -> ProgramResult {
    fn allocate(a: &AccountInfo, space: u64) -> ProgramResult {
        if *a.owner != system_program::ID || a.data_len() != 0 {
            return err("allocate: account in use");
        }
        if !a.is_signer {
            return err("allocate: missing signature");
        }
        let mem = alloc(space as usize);
        *a.data.borrow_mut() = unsafe { std::mem::transmute(mem) };
        Ok(())
    }
    fn assign(a: &AccountInfo, owner: &Pubkey) -> ProgramResult {
        if *a.owner == *owner {
            return Ok(());
        }
        if *a.owner != system_program::ID || !a.is_signer {
            return err("assign: not allowed");
        }
        a.assign(owner);
        Ok(())
    }
    fn transfer(
        from: &AccountInfo,
        to: &AccountInfo,
        lamports: u64,
    ) -> ProgramResult {
        if !from.is_signer
            || from.data_len() != 0
            || *from.owner != system_program::ID
        {
            return err("transfer: not allowed");
        }
        if from.lamports() < lamports {
            return err("transfer: insufficient lamports");
        }
        **from.lamports.borrow_mut() -= lamports;
        **to.lamports.borrow_mut() += lamports;
        Ok(())
    }

    let ix: SystemInstruction = match bincode::deserialize(data) {
        Ok(ix) => ix,
        Err(_) => return err("bad system instruction"),
    };
    match ix {
        SystemInstruction::CreateAccount {
            lamports,
            space,
            owner,
        } => {
            if infos[1].lamports() > 0 {
                return err("create: account already in use");
            }
            allocate(&infos[1], space)?;
            assign(&infos[1], &owner)?;
            transfer(&infos[0], &infos[1], lamports)
        }
        SystemInstruction::Allocate { space } => allocate(&infos[0], space),
        SystemInstruction::Assign { owner } => assign(&infos[0], &owner),
        SystemInstruction::Transfer { lamports } => {
            transfer(&infos[0], &infos[1], lamports)
        }
        _ => err("unsupported system instruction"),
    }
}

struct Slotted {
    key: Pubkey,
    lamports: u64,
    owner: Pubkey,
}

struct Job {
    slot: u64,
    program: Pubkey,
    metas: Vec<Meta>,
    keys: Vec<Pubkey>,
    before: Vec<Acct>,
    data: Vec<u8>,
}

type Verdict = std::result::Result<Vec<Acct>, Vec<String>>;

/// Runs instructions on a thread of its own, so that one which never ends can
/// be given up, as it would exceed the computational budget of the runtime.
struct Worker {
    jobs: mpsc::Sender<Job>,
    verdicts: mpsc::Receiver<Verdict>,
}

const WORKER: &str = "worker";

impl Worker {
    fn start() -> Self {
        let (jobs, todo) = mpsc::channel::<Job>();
        let (done, verdicts) = mpsc::channel();
        thread::Builder::new()
            .name(WORKER.to_string())
            .stack_size(64 << 20)
            .spawn(move || {
                for job in todo {
                    if done.send(job.run()).is_err() {
                        break;
                    }
                }
            })
            .unwrap();
        Self { jobs, verdicts }
    }
}

thread_local! {
    static THREAD: RefCell<Option<Worker>> = RefCell::new(None);
    static GIVEN_UP: RefCell<u32> = RefCell::new(0);
}

/// Whether so many instructions never ended that it is of no use to go on.
pub fn hopeless() -> bool {
    GIVEN_UP.with(|n| *n.borrow() >= 4)
}

pub fn install() {
    program_stubs::set_syscall_stubs(Box::new(Stubs));
    let usual = panic::take_hook();
    panic::set_hook(Box::new(move |info| {
        if thread::current().name() == Some(WORKER) {
            log(format!("panic: {}", info))
        } else {
            usual(info)
        }
    }));
}

impl Bank {
    /// Returns the logs if the instruction failed.
    pub fn process(
        &mut self,
        program: &Pubkey,
        metas: Vec<Meta>,
        data: &[u8],
    ) -> std::result::Result<(), Vec<String>> {
        let mut keys: Vec<Pubkey> = vec![];
        for m in &metas {
            if !keys.contains(&m.key) {
                keys.push(m.key);
            }
        }
        let before: Vec<Acct> = keys
            .iter()
            .map(|k| {
                self.accts.get(k).cloned().unwrap_or_else(|| Acct {
                    owner: system_program::ID,
                    ..Acct::default()
                })
            })
            .collect();
        let job = Job {
            slot: self.slot,
            program: *program,
            metas,
            keys: keys.clone(),
            before,
            data: data.to_vec(),
        };
        let verdict = THREAD.with(|w| {
            let mut w = w.borrow_mut();
            let worker = w.get_or_insert_with(Worker::start);
            worker.jobs.send(job).unwrap();
            let res = worker.verdicts.recv_timeout(Duration::from_secs(6));
            if res.is_err() {
                *w = None;
                GIVEN_UP.with(|n| *n.borrow_mut() += 1);
            }
            res
        });
        let after = verdict.unwrap_or_else(|_| {
            Err(vec!["runtime: computational budget exceeded".to_string()])
        })?;
        for (k, a) in keys.iter().zip(after) {
            if a.lamports == 0 {
                // purged by the runtime
                self.accts.remove(k);
            } else {
                self.accts.insert(*k, a);
            }
        }
        Ok(())
    }
}

impl Job {
    /// The accounts the instruction leaves behind, or the logs if it failed.
    fn run(self) -> Verdict {
        let Job {
            slot,
            program,
            metas,
            keys,
            before,
            data,
        } = self;
        SLOT.with(|s| *s.borrow_mut() = slot);
        LOGS.with(|l| l.borrow_mut().clear());
        PASSED.with(|p| *p.borrow_mut() = keys.clone());
        let slots: Vec<*mut Slotted> = keys
            .iter()
            .zip(&before)
            .map(|(k, a)| {
                Box::into_raw(Box::new(Slotted {
                    key: *k,
                    lamports: a.lamports,
                    owner: a.owner,
                }))
            })
            .collect();
        let uniq: Vec<AccountInfo<'static>> = slots
            .iter()
            .zip(&before)
            .map(|(s, a)| {
                let s: &'static mut Slotted = unsafe { &mut **s };
                let mem = alloc(a.data.len());
                mem.copy_from_slice(&a.data);
                let signer = metas.iter().any(|m| m.key == s.key && m.signer);
                let writable =
                    metas.iter().any(|m| m.key == s.key && m.writable);
                AccountInfo::new(
                    &s.key,
                    signer,
                    writable,
                    &mut s.lamports,
                    mem,
                    &s.owner,
                    a.executable,
                    0,
                )
            })
            .collect();
        let infos: Vec<AccountInfo<'static>> = metas
            .iter()
            .map(|m| {
                let i = keys.iter().position(|k| *k == m.key).unwrap();
                uniq[i].clone()
            })
            .collect();

        STACK.with(|s| *s.borrow_mut() = vec![program]);
        let res = panic::catch_unwind(panic::AssertUnwindSafe(|| {
            run(&program, &infos, &data)
        }));
        let mut ok = match res {
            Ok(Ok(())) => true,
            Ok(Err(e)) => {
                log(format!("error: {:?}", e));
                false
            }
            Err(_) => false,
        };

        let mut after = vec![];
        if ok {
            after = uniq
                .iter()
                .zip(&before)
                .map(|(i, b)| Acct {
                    lamports: i.lamports(),
                    data: i.data.borrow().to_vec(),
                    owner: *i.owner,
                    executable: b.executable,
                })
                .collect();
            let sum = |x: &[Acct]| -> u128 {
                x.iter().map(|a| a.lamports as u128).sum()
            };
            if sum(&before) != sum(&after) {
                log("runtime: unbalanced lamports".to_string());
                ok = false;
            }
            for (n, i) in uniq.iter().enumerate() {
                if !i.is_writable && before[n] != after[n] {
                    log("runtime: read-only account changed".to_string());
                    ok = false;
                }
            }
        }
        drop(infos);
        drop(uniq);
        for s in slots {
            unsafe { drop(Box::from_raw(s)) };
        }
        ARENA.with(|a| a.borrow_mut().clear());

        if ok {
            Ok(after)
        } else {
            Err(LOGS.with(|l| l.borrow().clone()))
        }
    }
}
