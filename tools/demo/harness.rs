// Runs the asset program natively on accounts laid out as the runtime would.
#![allow(dead_code, unused_imports)]
pub use asset_program::instruction::*;
pub use borsh::BorshSerialize;
pub use nifty_asset_types::{constraints::*, extensions::*, state::*};
pub use solana_program::pubkey::Pubkey;

pub const ID: Pubkey = asset_program::ID;
pub const SYS: Pubkey = solana_program::system_program::ID;

#[derive(Clone, PartialEq)]
pub struct Acct {
    pub key: Pubkey,
    pub owner: Pubkey,
    pub lamports: u64,
    pub data: Vec<u8>,
    pub signer: bool,
    pub writable: bool,
}

static STACK: std::sync::atomic::AtomicU64 = std::sync::atomic::AtomicU64::new(1);

struct Stubs;
impl solana_program::program_stubs::SyscallStubs for Stubs {
    fn sol_log(&self, _m: &str) {}
    fn sol_get_stack_height(&self) -> u64 {
        STACK.load(std::sync::atomic::Ordering::SeqCst)
    }
    fn sol_get_rent_sysvar(&self, p: *mut u8) -> u64 {
        unsafe { *(p as *mut solana_program::rent::Rent) = Default::default() };
        0
    }
}

/// 1: top level, more: called by another program
pub fn stack_height(n: u64) {
    STACK.store(n, std::sync::atomic::Ordering::SeqCst)
}

pub fn key(n: u8) -> Pubkey {
    Pubkey::new_from_array([n; 32])
}

pub fn wallet(n: u8) -> Acct {
    Acct { key: key(n), owner: SYS, lamports: 1_000_000_000, data: vec![], signer: false, writable: true }
}

pub fn none() -> Acct {
    Acct { key: ID, owner: SYS, lamports: 1, data: vec![], signer: false, writable: false }
}

pub fn system() -> Acct {
    Acct { key: SYS, owner: SYS, lamports: 1, data: vec![], signer: false, writable: false }
}

pub fn rent(len: usize) -> u64 {
    solana_program::rent::Rent::default().minimum_balance(len)
}

/// Program-owned account holding `data`.
pub fn owned(n: u8, data: Vec<u8>) -> Acct {
    Acct { key: key(n), owner: ID, lamports: rent(data.len()), data, signer: false, writable: true }
}

pub fn signed(mut a: Acct) -> Acct {
    a.signer = true;
    a
}

/// Initialized asset: owner, authority, and extensions as (type, data).
pub fn asset(n: u8, owner: u8, authority: u8, exts: &[(u32, Vec<u8>)]) -> Acct {
    let mut d = vec![0u8; 168];
    d[0] = 1;
    d[3] = 1;
    d[4..36].copy_from_slice(key(owner).as_ref());
    d[68..100].copy_from_slice(key(authority).as_ref());
    add_exts(&mut d, exts);
    owned(n, d)
}

pub fn add_exts(d: &mut Vec<u8>, exts: &[(u32, Vec<u8>)]) {
    for (t, x) in exts {
        let at = d.len();
        let end = (at + 16 + x.len() + 7) / 8 * 8;
        d.extend_from_slice(&t.to_le_bytes());
        d.extend_from_slice(&(x.len() as u32).to_le_bytes());
        d.extend_from_slice(&(end as u32).to_le_bytes());
        d.extend_from_slice(&[0; 4]);
        d.extend_from_slice(x);
        d.resize(end, 0);
    }
}

/// Walks the extensions of an account: (type, data).
pub fn walk(d: &[u8]) -> Vec<(u32, Vec<u8>)> {
    let mut at = 168;
    let mut out = vec![];
    while at + 16 <= d.len() {
        let w = |o: usize| u32::from_le_bytes(d[at + o..at + o + 4].try_into().unwrap());
        let (t, l, b) = (w(0), w(4) as usize, w(8) as usize);
        if t == 0 {
            break;
        }
        if at + 16 + l > d.len() || b <= at {
            out.push((u32::MAX, vec![]));
            break;
        }
        out.push((t, d[at + 16..at + 16 + l].to_vec()));
        at = b;
    }
    out
}

/// Runs one instruction; accounts are updated in place only when it succeeds.
pub fn run_raw(accts: &mut [Acct], ix: &[u8]) -> Result<(), u64> {
    static ONCE: std::sync::Once = std::sync::Once::new();
    ONCE.call_once(|| {
        solana_program::program_stubs::set_syscall_stubs(Box::new(Stubs));
    });
    let mut b: Vec<u8> = vec![];
    b.extend_from_slice(&(accts.len() as u64).to_le_bytes());
    let mut at = vec![];
    for a in accts.iter() {
        at.push(b.len());
        b.extend_from_slice(&[0xff, a.signer as u8, a.writable as u8, 0, 0, 0, 0, 0]);
        b.extend_from_slice(a.key.as_ref());
        b.extend_from_slice(a.owner.as_ref());
        b.extend_from_slice(&a.lamports.to_le_bytes());
        b.extend_from_slice(&(a.data.len() as u64).to_le_bytes());
        b.extend_from_slice(&a.data);
        b.resize(b.len() + 10240, 0);
        while b.len() % 8 != 0 {
            b.push(0);
        }
        b.extend_from_slice(&0u64.to_le_bytes());
    }
    b.extend_from_slice(&(ix.len() as u64).to_le_bytes());
    b.extend_from_slice(ix);
    b.extend_from_slice(ID.as_ref());
    let mut words = vec![0u64; b.len() / 8 + 2];
    let p = words.as_mut_ptr() as *mut u8;
    unsafe { std::ptr::copy_nonoverlapping(b.as_ptr(), p, b.len()) };
    let r = std::panic::catch_unwind(|| unsafe { asset_program::entrypoint::entrypoint(p) });
    let r = match r {
        Ok(x) => x,
        Err(_) => return Err(u64::MAX),
    };
    if r != 0 {
        return Err(r);
    }
    let out = unsafe { std::slice::from_raw_parts(p, b.len()) };
    for (a, &o) in accts.iter_mut().zip(&at) {
        a.owner = Pubkey::new_from_array(out[o + 40..o + 72].try_into().unwrap());
        a.lamports = u64::from_le_bytes(out[o + 72..o + 80].try_into().unwrap());
        let n = u64::from_le_bytes(out[o + 80..o + 88].try_into().unwrap()) as usize;
        a.data = out[o + 88..o + 88 + n].to_vec();
    }
    Ok(())
}

pub fn run(accts: &mut [Acct], ix: Instruction) -> Result<(), u64> {
    run_raw(accts, &ix.try_to_vec().unwrap())
}
