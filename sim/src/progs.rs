//! Program dispatch.  Real code: cyclos-core, SPL token, associated token account, Metaplex token
//! metadata.  Stand-ins: the system program and the byzantine callback handler.
use crate::abi;
use crate::bank::{self, Ix, Meta};
use solana_program::account_info::AccountInfo;
use solana_program::entrypoint::ProgramResult;
use solana_program::program_error::ProgramError;
use solana_program::pubkey::Pubkey;
use solana_program::system_instruction::SystemInstruction;

pub fn dispatch(program: &Pubkey, infos: &[AccountInfo<'static>], uniq: &[AccountInfo<'static>], data: &[u8]) -> ProgramResult {
    let p: &'static Pubkey = Box::leak(Box::new(*program));
    let r = if *program == abi::CORE {
        cyclos_core::entry(p, infos, data)
    } else if *program == abi::TOKEN {
        spl_token::processor::Processor::process(p, infos, data)
    } else if *program == abi::ATA {
        spl_associated_token_account::processor::process_instruction(p, infos, data)
    } else if *program == abi::METADATA {
        // its signature asks for a slice as long-lived as the accounts; the call does not keep it
        let infos: &'static [AccountInfo<'static>] = unsafe { std::mem::transmute(infos) };
        metaplex_token_metadata::processor::process_instruction(p, infos, data)
    } else if *program == abi::SYSTEM {
        system(infos, data)
    } else if *program == abi::HANDLER {
        handler(infos, uniq, data)
    } else {
        Err(ProgramError::IncorrectProgramId)
    };
    unsafe { drop(Box::from_raw(p as *const Pubkey as *mut Pubkey)) };
    r
}

fn set_owner(i: &AccountInfo, owner: &Pubkey) {
    unsafe { std::ptr::write_volatile(i.owner as *const Pubkey as *mut Pubkey, *owner) }
}

fn allocate(i: &AccountInfo, space: u64) -> ProgramResult {
    if !i.is_signer {
        return Err(ProgramError::MissingRequiredSignature);
    }
    if i.data_len() > 0 || *i.owner != abi::SYSTEM {
        return Err(bank::err(0)); // AccountAlreadyInUse
    }
    unsafe {
        let slot = i.data.as_ptr();
        let base = (**slot).as_mut_ptr();
        if space as usize > 1024 {
            return Err(ProgramError::InvalidRealloc_());
        }
        *(base.sub(8) as *mut u64) = space;
        let ns: &mut [u8] = std::slice::from_raw_parts_mut(base, space as usize);
        for b in ns.iter_mut() {
            *b = 0;
        }
        *slot = std::mem::transmute::<&mut [u8], &mut [u8]>(ns);
    }
    Ok(())
}
trait Compat {
    #[allow(non_snake_case)]
    fn InvalidRealloc_() -> ProgramError;
}
impl Compat for ProgramError {
    fn InvalidRealloc_() -> ProgramError {
        ProgramError::Custom(77)
    }
}

fn assign(i: &AccountInfo, owner: &Pubkey) -> ProgramResult {
    if i.owner == owner {
        return Ok(());
    }
    if !i.is_signer {
        return Err(ProgramError::MissingRequiredSignature);
    }
    if *i.owner != abi::SYSTEM {
        return Err(ProgramError::IncorrectProgramId);
    }
    set_owner(i, owner);
    Ok(())
}

fn transfer(from: &AccountInfo, to: &AccountInfo, lamports: u64) -> ProgramResult {
    if !from.is_signer {
        return Err(ProgramError::MissingRequiredSignature);
    }
    if from.data_len() > 0 {
        return Err(ProgramError::InvalidArgument);
    }
    if lamports > from.lamports() {
        return Err(bank::err(1)); // ResultWithNegativeLamports
    }
    if from.key == to.key {
        return Ok(());
    }
    **from.try_borrow_mut_lamports()? -= lamports;
    **to.try_borrow_mut_lamports()? += lamports;
    Ok(())
}

/// stand-in for the system program
fn system(a: &[AccountInfo], data: &[u8]) -> ProgramResult {
    let ix: SystemInstruction = bincode::deserialize(data).map_err(|_| ProgramError::InvalidInstructionData)?;
    let acc = |n: usize| a.get(n).ok_or(ProgramError::NotEnoughAccountKeys);
    match ix {
        SystemInstruction::CreateAccount { lamports, space, owner } => {
            let (f, t) = (acc(0)?, acc(1)?);
            if t.lamports() > 0 {
                return Err(bank::err(0));
            }
            allocate(t, space)?;
            assign(t, &owner)?;
            transfer(f, t, lamports)
        }
        SystemInstruction::Transfer { lamports } => transfer(acc(0)?, acc(1)?, lamports),
        SystemInstruction::Allocate { space } => allocate(acc(0)?, space),
        SystemInstruction::Assign { owner } => assign(acc(0)?, &owner),
        _ => Err(ProgramError::InvalidInstructionData),
    }
}

/// The payment callback program under the attacker's control.  It is called with the same accounts
/// as the core program's own callback and does what the step's script says.
fn handler(a: &[AccountInfo<'static>], uniq: &[AccountInfo<'static>], data: &[u8]) -> ProgramResult {
    let s = bank::script();
    if let Some(ix) = &s.reenter {
        bank::set_reenter_ok(false);
        bank::invoke(ix, uniq)?;
        bank::set_reenter_ok(true);
    }
    if s.fail {
        return Err(bank::err(4242));
    }
    // (authority, from, right vault, other vault, owed)
    let mut dues: Vec<(usize, usize, usize, usize, u64)> = vec![];
    if data.len() >= 24 && data[..8] == abi::disc("global", "mint_callback") {
        let o0 = u64::from_le_bytes(data[8..16].try_into().unwrap());
        let o1 = u64::from_le_bytes(data[16..24].try_into().unwrap());
        dues.push((0, 1, 3, 4, o0));
        dues.push((0, 2, 4, 3, o1));
    } else if data.len() >= 24 && data[..8] == abi::disc("global", "swap_callback") {
        let d0 = i64::from_le_bytes(data[8..16].try_into().unwrap());
        let d1 = i64::from_le_bytes(data[16..24].try_into().unwrap());
        let owed = if d0 > 0 { d0 } else { d1 };
        if owed > 0 {
            dues.push((0, 1, 3, 4, owed as u64));
        }
    } else {
        return Err(ProgramError::InvalidInstructionData);
    }
    for (no, (auth, from, vault, other, owed)) in dues.into_iter().enumerate() {
        for p in s.pays.iter().filter(|p| p.only == 0 || p.only as usize == no + 1) {
            let mut amt = ((owed as u128 * p.num as u128) / p.den.max(1) as u128) as i128 + p.plus as i128;
            if amt < 0 {
                amt = 0;
            }
            let amt = amt.min(u64::MAX as i128) as u64;
            if amt == 0 {
                continue;
            }
            let to = match p.dest {
                0 => vault,
                1 => other,
                _ => from,
            };
            let mut d = vec![3u8];
            d.extend_from_slice(&amt.to_le_bytes());
            let ix = Ix {
                program: abi::TOKEN,
                metas: vec![
                    Meta { key: *a[from].key, signer: false, writable: true },
                    Meta { key: *a[to].key, signer: false, writable: true },
                    Meta { key: *a[auth].key, signer: true, writable: false },
                ],
                data: d,
            };
            bank::invoke(&ix, uniq)?;
        }
    }
    Ok(())
}
