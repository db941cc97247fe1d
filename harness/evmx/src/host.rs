//! A small but complete model of the world behind the EVM `Host` interface: accounts, storage with
//! original/present values, transient storage, warm/cold sets, logs, self-destructs and injected
//! database errors. The same host type backs both the interpreter and the compiled code.

use alloy_primitives::{Address, B256, Log, U256, keccak256};
use revm_bytecode::Bytecode;
use revm_context_interface::{
    cfg::GasParams,
    context::{SStoreResult, SelfDestructResult, StateLoad},
    host::LoadError,
    journaled_state::AccountInfoLoad,
};
use revm_interpreter::Host;
use revm_primitives::{KECCAK_EMPTY, hardfork::SpecId};
use revm_state::AccountInfo;
use std::{
    borrow::Cow,
    collections::{BTreeMap, BTreeSet},
    sync::{Arc, LazyLock},
};

/// An address all of whose bytes differ.
const fn asym(first: u8) -> Address {
    let mut b = [0u8; 20];
    let mut i = 0;
    while i < 20 {
        b[i] = first.wrapping_add((i as u8).wrapping_mul(0x0d));
        i += 1;
    }
    Address::new(b)
}
pub const SELF: Address = asym(0xba);
pub const CALLER: Address = asym(0xca);
/// A contract with code.
pub const OTHER: Address = asym(0x69);
/// An EOA with a balance.
pub const RICH: Address = asym(0x42);
/// An account delegating to [`OTHER`] (EIP-7702).
pub const DELEG: Address = asym(0x77);
/// Loading this account fails with a database error.
pub const BROKEN: Address = asym(0xdb);
/// Accessing this storage slot fails with a database error.
pub const BROKEN_SLOT: U256 = U256::from_limbs([0xdb, 0, 0, 0]);
/// The hash of this block cannot be loaded.
pub const BROKEN_BLOCK: u64 = 490;

pub static OTHER_CODE: LazyLock<Bytecode> = LazyLock::new(|| {
    Bytecode::new_raw(
        (0..40u8).map(|i| 0x60u8.wrapping_add(i.wrapping_mul(7))).collect::<Vec<_>>().into(),
    )
});
pub static SELF_CODE: LazyLock<Bytecode> = LazyLock::new(|| Bytecode::new_raw(vec![0u8; 3].into()));
pub static DELEG_CODE: LazyLock<Bytecode> = LazyLock::new(|| Bytecode::new_eip7702(OTHER));

static HASHES: LazyLock<[B256; 3]> = LazyLock::new(|| {
    [
        keccak256(OTHER_CODE.original_byte_slice()),
        keccak256(SELF_CODE.original_byte_slice()),
        keccak256(DELEG_CODE.original_byte_slice()),
    ]
});

#[derive(Clone, Debug, PartialEq, Eq, Default)]
pub struct World {
    /// (slot) -> (original, present)
    pub storage: BTreeMap<U256, (U256, U256)>,
    pub transient: BTreeMap<U256, U256>,
    pub logs: Vec<Log>,
    pub selfdestructs: Vec<(Address, Address)>,
    pub warm: BTreeSet<Address>,
    pub warm_slots: BTreeSet<U256>,
}

pub struct MHost {
    pub w: World,
    pub gas_params: Arc<GasParams>,
    pub spec: SpecId,
    pub eip8037: bool,
    /// Every environment value uses all of its bits, and the block number exceeds 64 bits.
    pub wide: bool,
    pub accesses: u64,
}

static WORLD0: LazyLock<World> = LazyLock::new(|| {
    let mut w = World::default();
    for (k, v) in [(0u64, 1u64), (1, 2), (2, 0), (69, 42)] {
        w.storage.insert(U256::from(k), (U256::from(v), U256::from(v)));
    }
    w.warm.insert(SELF);
    w.warm.insert(CALLER);
    w.warm_slots.insert(U256::from(1));
    w
});
static PARAMS: LazyLock<Vec<Arc<GasParams>>> = LazyLock::new(|| {
    (0..=255u8)
        .filter_map(|i| SpecId::try_from_u8(i).map(|s| Arc::new(GasParams::new_spec(s))))
        .collect()
});

/// A schedule in which every price differs from the standard one.
pub fn custom_gas_params(spec: SpecId) -> Arc<GasParams> {
    static P: LazyLock<Vec<Arc<GasParams>>> = LazyLock::new(|| {
        PARAMS
            .iter()
            .map(|p| {
                let mut t = *p.table();
                for (i, x) in t.iter_mut().enumerate() {
                    if *x != 0 {
                        *x += 1 + (i as u64 % 5);
                    }
                }
                Arc::new(GasParams::new(Arc::new(t)))
            })
            .collect()
    });
    P[all_specs_idx(spec)].clone()
}

pub fn all_specs() -> Vec<SpecId> {
    (0..=255u8).filter_map(SpecId::try_from_u8).collect()
}

impl MHost {
    pub fn new(spec: SpecId) -> Self {
        let idx = all_specs_idx(spec);
        Self {
            w: WORLD0.clone(),
            gas_params: PARAMS[idx].clone(),
            spec,
            eip8037: spec as u8 >= SpecId::AMSTERDAM as u8,
            wide: false,
            accesses: 0,
        }
    }
}

impl MHost {
    fn val(&self, small: u64) -> U256 {
        if !self.wide {
            return U256::from(small);
        }
        let b: [u8; 32] = core::array::from_fn(|i| (small as u8).wrapping_add((i as u8).wrapping_mul(0x1b)) | 0x80);
        U256::from_be_bytes(b)
    }
}

fn all_specs_idx(spec: SpecId) -> usize {
    static IDX: LazyLock<Vec<SpecId>> = LazyLock::new(all_specs);
    IDX.iter().position(|s| *s == spec).unwrap()
}

impl Host for MHost {
    fn basefee(&self) -> U256 {
        self.val(0x1231)
    }
    fn blob_gasprice(&self) -> U256 {
        self.val(0x77)
    }
    fn gas_limit(&self) -> U256 {
        self.val(0x5678)
    }
    fn gas_params(&self) -> &GasParams {
        &self.gas_params
    }
    fn is_amsterdam_eip8037_enabled(&self) -> bool {
        self.eip8037
    }
    fn difficulty(&self) -> U256 {
        self.val(0xcdef)
    }
    fn prevrandao(&self) -> Option<U256> {
        Some(self.val(0x0123))
    }
    fn block_number(&self) -> U256 {
        U256::from(500) + (U256::from(self.wide as u64) << 64)
    }
    fn timestamp(&self) -> U256 {
        self.val(0x1234)
    }
    fn beneficiary(&self) -> Address {
        asym(0xcb)
    }
    fn slot_num(&self) -> U256 {
        self.val(0x51)
    }
    fn chain_id(&self) -> U256 {
        self.val(69)
    }
    fn effective_gas_price(&self) -> U256 {
        self.val(0x4567)
    }
    fn caller(&self) -> Address {
        asym(0xcc)
    }
    fn blob_hash(&self, number: usize) -> Option<U256> {
        [self.val(0x0101), self.val(0x0202)].get(number).copied()
    }
    fn max_initcode_size(&self) -> usize {
        // A small limit, so that it is reachable.
        96
    }
    fn block_hash(&mut self, number: u64) -> Option<B256> {
        if number == BROKEN_BLOCK {
            return None;
        }
        Some(keccak256(number.to_be_bytes()))
    }
    fn selfdestruct(
        &mut self,
        address: Address,
        target: Address,
        skip_cold_load: bool,
    ) -> Result<StateLoad<SelfDestructResult>, LoadError> {
        self.accesses += 1;
        if target == BROKEN {
            return Err(LoadError::DBError);
        }
        let cold = !self.w.warm.contains(&target);
        if cold && skip_cold_load {
            return Err(LoadError::ColdLoadSkipped);
        }
        self.w.warm.insert(target);
        let prev = self.w.selfdestructs.iter().any(|(a, _)| *a == address)
            || (target.0[..19] == [0; 19] && matches!(target.0[19], 0xd1 | 0xd3));
        self.w.selfdestructs.push((address, target));
        Ok(StateLoad::new(
            SelfDestructResult {
                had_value: !(target.0[..19] == [0; 19] && matches!(target.0[19], 0xd2 | 0xd3)),
                target_exists: [SELF, CALLER, OTHER, RICH, DELEG].contains(&target),
                previously_destroyed: prev,
            },
            cold,
        ))
    }
    fn log(&mut self, log: Log) {
        self.w.logs.push(log);
    }
    fn tstore(&mut self, address: Address, key: U256, value: U256) {
        assert_eq!(address, SELF);
        self.w.transient.insert(key, value);
    }
    fn tload(&mut self, address: Address, key: U256) -> U256 {
        assert_eq!(address, SELF);
        self.w.transient.get(&key).copied().unwrap_or(U256::ZERO)
    }
    fn load_account_info_skip_cold_load(
        &mut self,
        address: Address,
        load_code: bool,
        skip_cold_load: bool,
    ) -> Result<AccountInfoLoad<'_>, LoadError> {
        self.accesses += 1;
        if address == BROKEN {
            return Err(LoadError::DBError);
        }
        let cold = !self.w.warm.contains(&address);
        if cold && skip_cold_load {
            return Err(LoadError::ColdLoadSkipped);
        }
        self.w.warm.insert(address);
        let (balance, code, hash) = match address {
            SELF => (U256::from(1000u64), Some(&*SELF_CODE), HASHES[1]),
            OTHER => (U256::from(7u64), Some(&*OTHER_CODE), HASHES[0]),
            DELEG => (U256::from(8u64), Some(&*DELEG_CODE), HASHES[2]),
            RICH => (U256::MAX, None, KECCAK_EMPTY),
            CALLER => (U256::from(9u64), None, KECCAK_EMPTY),
            _ => (U256::ZERO, None, KECCAK_EMPTY),
        };
        let is_empty = balance.is_zero() && code.is_none();
        let code = load_code.then(|| code.cloned().unwrap_or_default());
        let info = AccountInfo { balance, nonce: 0, code_hash: hash, account_id: None, code };
        Ok(AccountInfoLoad { account: Cow::Owned(info), is_cold: cold, is_empty })
    }
    fn sstore_skip_cold_load(
        &mut self,
        address: Address,
        key: U256,
        value: U256,
        skip_cold_load: bool,
    ) -> Result<StateLoad<SStoreResult>, LoadError> {
        assert_eq!(address, SELF);
        self.accesses += 1;
        if key == BROKEN_SLOT {
            return Err(LoadError::DBError);
        }
        let cold = !self.w.warm_slots.contains(&key);
        if cold && skip_cold_load {
            return Err(LoadError::ColdLoadSkipped);
        }
        self.w.warm_slots.insert(key);
        let e = self.w.storage.entry(key).or_insert((U256::ZERO, U256::ZERO));
        let r = SStoreResult { original_value: e.0, present_value: e.1, new_value: value };
        e.1 = value;
        Ok(StateLoad::new(r, cold))
    }
    fn sload_skip_cold_load(
        &mut self,
        address: Address,
        key: U256,
        skip_cold_load: bool,
    ) -> Result<StateLoad<U256>, LoadError> {
        assert_eq!(address, SELF);
        self.accesses += 1;
        if key == BROKEN_SLOT {
            return Err(LoadError::DBError);
        }
        let cold = !self.w.warm_slots.contains(&key);
        if cold && skip_cold_load {
            return Err(LoadError::ColdLoadSkipped);
        }
        self.w.warm_slots.insert(key);
        let v = self.w.storage.get(&key).map(|e| e.1).unwrap_or(U256::ZERO);
        Ok(StateLoad::new(v, cold))
    }
}
