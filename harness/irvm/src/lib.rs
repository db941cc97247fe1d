//! An executable, instrumented `revmc_backend::Backend`.
//!
//! The real code generator drives the `Builder` interface; this backend records the IR, checks its
//! structural well-formedness (as an IR verifier would), and executes it exactly, while monitoring
//! every memory access, phi, `unreachable`, division and builtin call.
#![allow(clippy::all)]

mod exec;
pub use exec::{Stats, set_step_limit, set_trace, take_fault, take_stats};

use revmc_backend::{
    Attribute, Backend, BackendConfig, BackendTypes, Builder, CallConv, FunctionAttributeLocation,
    IntCC, Linkage, Result, TailCallKind, TypeMethods,
};
pub use ruint::aliases::U256;
use std::{collections::HashMap, path::Path, sync::Arc};

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Ty {
    Ptr,
    Int(u32),
    Array(u32, u32), // element bits, count
}
impl Ty {
    pub fn bits(self) -> u32 {
        match self {
            Ty::Ptr => 64,
            Ty::Int(b) => b,
            Ty::Array(..) => 0,
        }
    }
    pub fn size(self) -> usize {
        match self {
            Ty::Ptr => 8,
            Ty::Int(b) => (b as usize).div_ceil(8),
            Ty::Array(b, n) => (b as usize).div_ceil(8) * n as usize,
        }
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub struct Val(pub u32);
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub struct Slot(pub u32);
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub struct Blk(pub u32);
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub struct FnRef(pub u32);

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub(crate) enum Bin {
    Add,
    Sub,
    Mul,
    UDiv,
    SDiv,
    URem,
    SRem,
    UAddSat,
    UMax,
    UMin,
    Or,
    And,
    Xor,
    Shl,
    UShr,
    SShr,
}

#[derive(Clone, Debug)]
pub(crate) enum Op {
    Bin { op: Bin, w: u32, d: u32, a: u32, b: u32 },
    Icmp { cc: IntCC, w: u32, d: u32, a: u32, b: u32 },
    Ovf { sub: bool, w: u32, d: u32, o: u32, a: u32, b: u32 },
    Not { w: u32, d: u32, a: u32 },
    Clz { w: u32, d: u32, a: u32 },
    Bswap { w: u32, d: u32, a: u32 },
    Select { d: u32, c: u32, a: u32, b: u32 },
    Zext { d: u32, a: u32 },
    Sext { from: u32, to: u32, d: u32, a: u32 },
    Trunc { to: u32, d: u32, a: u32 },
    Load { size: u32, w: u32, d: u32, p: u32, align: u32 },
    Store { size: u32, v: u32, p: u32, align: u32 },
    Gep { d: u32, p: u32, scales: Vec<(u32, u64, u32)> }, // (index value, scale, index width)
    Memcpy { d: u32, s: u32, n: u32 },
    Phi { d: u32, inc: Vec<(u32, u32)> }, // (value, block)
    Call { f: u32, args: Vec<u32>, d: Option<u32> },
    Assume { c: u32 },
    Br { t: u32 },
    Brif { c: u32, t: u32, e: u32 },
    Switch { i: u32, default: u32, targets: Vec<(u64, u32)> },
    Ret { v: Option<u32> },
    Unreachable,
}
impl Op {
    pub(crate) fn is_term(&self) -> bool {
        matches!(
            self,
            Op::Br { .. } | Op::Brif { .. } | Op::Switch { .. } | Op::Ret { .. } | Op::Unreachable
        )
    }
}

#[derive(Clone, Debug)]
pub(crate) enum VKind {
    Const(U256),
    Param(u32),
    Slot(u32),
    Inst,
}

#[derive(Clone, Debug, Default)]
pub(crate) struct Attrs {
    pub(crate) func: Vec<Attribute>,
    pub(crate) params: Vec<Vec<Attribute>>,
}

#[derive(Clone, Debug)]
pub(crate) struct Func {
    pub(crate) name: String,
    pub(crate) params: Vec<Ty>,
    pub(crate) ret: Option<Ty>,
    pub(crate) addr: Option<usize>,
    pub(crate) attrs: Attrs,
    pub(crate) vals: Vec<(Ty, VKind)>,
    pub(crate) blocks: Vec<Vec<Op>>,
    pub(crate) slots: Vec<(Ty, u32)>, // type, value id
    pub(crate) param_vals: Vec<u32>,
    pub(crate) built: bool,
}
impl Func {
    fn new(name: &str, params: &[Ty], ret: Option<Ty>, addr: Option<usize>) -> Self {
        let mut f = Self {
            name: name.into(),
            params: params.to_vec(),
            ret,
            addr,
            attrs: Attrs { func: vec![], params: vec![vec![]; params.len()] },
            vals: vec![],
            blocks: vec![],
            slots: vec![],
            param_vals: vec![],
            built: false,
        };
        for (i, p) in params.iter().enumerate() {
            f.param_vals.push(f.vals.len() as u32);
            f.vals.push((*p, VKind::Param(i as u32)));
        }
        f
    }

    /// Structural verification, in the spirit of LLVM's module verifier.
    fn verify(&self) -> std::result::Result<(), String> {
        let n = self.blocks.len();
        let mut preds: Vec<Vec<u32>> = vec![vec![]; n];
        for (b, ops) in self.blocks.iter().enumerate() {
            let Some(last) = ops.last() else { return Err(format!("block {b} is empty")) };
            if !last.is_term() {
                return Err(format!("block {b} has no terminator"));
            }
            if let Some(i) = ops[..ops.len() - 1].iter().position(|o| o.is_term()) {
                return Err(format!("terminator in the middle of block {b} at {i}"));
            }
            let mut add = |t: u32| preds[t as usize].push(b as u32);
            match last {
                Op::Br { t } => add(*t),
                Op::Brif { t, e, .. } => {
                    add(*t);
                    add(*e);
                }
                Op::Switch { default, targets, .. } => {
                    add(*default);
                    let mut seen = std::collections::HashSet::new();
                    for (v, t) in targets {
                        if !seen.insert(*v) {
                            return Err(format!("duplicate switch case {v}"));
                        }
                        add(*t);
                    }
                }
                _ => {}
            }
        }
        for p in &mut preds {
            p.sort();
            p.dedup();
        }
        for (b, ops) in self.blocks.iter().enumerate() {
            let mut phis_done = false;
            for op in ops {
                if let Op::Phi { inc, d } = op {
                    if phis_done {
                        return Err(format!("phi %{d} not grouped at the top of block {b}"));
                    }
                    let mut m: HashMap<u32, u32> = HashMap::new();
                    for (v, blk) in inc {
                        if let Some(prev) = m.insert(*blk, *v)
                            && prev != *v
                            && !self.same_const(prev, *v)
                        {
                            return Err(format!(
                                "phi %{d} has ambiguous incoming values for block {blk}"
                            ));
                        }
                        if self.vals[*v as usize].0.bits() != self.vals[*d as usize].0.bits() {
                            return Err(format!("phi %{d} type mismatch"));
                        }
                    }
                    let mut ks: Vec<u32> = m.keys().copied().collect();
                    ks.sort();
                    if ks != preds[b] {
                        return Err(format!(
                            "phi %{d} in block {b} does not match predecessors: {ks:?} vs {:?}",
                            preds[b]
                        ));
                    }
                } else {
                    phis_done = true;
                }
            }
        }
        Ok(())
    }

    fn same_const(&self, a: u32, b: u32) -> bool {
        match (&self.vals[a as usize].1, &self.vals[b as usize].1) {
            (VKind::Const(x), VKind::Const(y)) => x == y,
            _ => false,
        }
    }
}

#[derive(Debug, Default)]
pub struct Module {
    pub(crate) funcs: Vec<Func>,
    by_name: HashMap<String, u32>,
}

pub(crate) struct Exec {
    pub(crate) func: Func,
    pub(crate) externs: HashMap<u32, Func>,
    pub(crate) consts: Vec<U256>,
}

/// Owns the code of one compiled function: dropping it makes further calls fault.
pub struct Code(exec::Thunk);
impl Code {
    pub fn addr(&self) -> usize {
        self.0.addr()
    }
}

/// Functions whose external symbols are not resolved yet.
pub struct Object {
    funcs: HashMap<String, Exec>,
}
impl Object {
    pub fn symbols(&self) -> Vec<String> {
        let mut v: Vec<String> = self.funcs.keys().cloned().collect();
        v.sort();
        v
    }
    /// Names of the external functions the object calls.
    pub fn undefined(&self) -> Vec<String> {
        let mut v: Vec<String> =
            self.funcs.values().flat_map(|e| e.externs.values().map(|f| f.name.clone())).collect();
        v.sort();
        v.dedup();
        v
    }
    /// Links `name`, resolving external symbols.
    pub fn link(
        &self,
        name: &str,
        resolve: &dyn Fn(&str) -> Option<usize>,
    ) -> std::result::Result<Code, String> {
        let e = self.funcs.get(name).ok_or_else(|| format!("undefined symbol: {name}"))?;
        let mut externs = e.externs.clone();
        for f in externs.values_mut() {
            f.addr = Some(resolve(&f.name).ok_or_else(|| format!("undefined symbol: {}", f.name))?);
        }
        let e = Exec { func: e.func.clone(), externs, consts: e.consts.clone() };
        Ok(Code(exec::Thunk::new(Arc::new(e))))
    }
}

/// The instrumented backend.
pub struct IrvmBackend {
    config: BackendConfig,
    aot: bool,
    module: Module,
    next_id: u32,
    ids: HashMap<u32, (String, u32)>, // id -> (name, func index in the current module)
    names: HashMap<u32, String>,
    live: HashMap<u32, exec::Thunk>,
    strings: Vec<Box<str>>,
    /// Error raised while building IR (type errors, writes after a terminator, ...).
    build_error: Option<String>,
}

impl Default for IrvmBackend {
    fn default() -> Self {
        Self::new(false)
    }
}

impl IrvmBackend {
    pub fn new(aot: bool) -> Self {
        Self {
            config: BackendConfig::default(),
            aot,
            module: Module::default(),
            next_id: 0,
            ids: HashMap::new(),
            names: HashMap::new(),
            live: HashMap::new(),
            strings: vec![],
            build_error: None,
        }
    }

    pub fn live_functions(&self) -> usize {
        self.live.len()
    }

    /// Number of IR operations currently in the module.
    pub fn ir_ops(&self) -> usize {
        self.module.funcs.iter().map(|f| f.blocks.iter().map(|b| b.len()).sum::<usize>()).sum()
    }

    /// Does the module mention a constant with this property?
    pub fn find_const(&self, f: impl Fn(&U256) -> bool) -> Option<U256> {
        self.module.funcs.iter().flat_map(|x| &x.vals).find_map(|v| match &v.1 {
            VKind::Const(c) if f(c) => Some(*c),
            _ => None,
        })
    }

    /// Hash of the code in the module: operations per block and constants that are not addresses.
    pub fn shape(&self) -> u64 {
        use std::hash::{Hash, Hasher};
        let mut h = std::collections::hash_map::DefaultHasher::new();
        for f in self.module.funcs.iter().filter(|f| f.built) {
            f.blocks.len().hash(&mut h);
            for b in &f.blocks {
                for o in b {
                    let s = format!("{o:?}");
                    s.split([' ', '(', '{']).next().hash(&mut h);
                }
            }
            for (t, v) in &f.vals {
                if let VKind::Const(c) = v
                    && *t != Ty::Ptr
                    && c.bit_len() <= 40
                {
                    c.hash(&mut h);
                }
            }
        }
        h.finish()
    }

    pub fn dump(&self) -> String {
        let mut s = String::new();
        use std::fmt::Write;
        for f in &self.module.funcs {
            if f.blocks.is_empty() {
                continue;
            }
            writeln!(s, "fn {}", f.name).unwrap();
            for (i, v) in f.vals.iter().enumerate() {
                if let VKind::Const(c) = v.1 {
                    writeln!(s, "  %{i} = const {:?} {c:#x}", v.0).unwrap();
                }
            }
            for (i, b) in f.blocks.iter().enumerate() {
                writeln!(s, " b{i}:").unwrap();
                for o in b {
                    writeln!(s, "  {o:?}").unwrap();
                }
            }
        }
        s
    }

    fn err(&self, e: String) -> revmc_backend::Error {
        revmc_backend::eyre::eyre!("irvm: {e}")
    }

    fn exec_of(&self, idx: u32) -> Exec {
        let func = self.module.funcs[idx as usize].clone();
        let mut externs = HashMap::new();
        for b in &func.blocks {
            for o in b {
                if let Op::Call { f, .. } = o {
                    externs.entry(*f).or_insert_with(|| self.module.funcs[*f as usize].clone());
                }
            }
        }
        let consts = func
            .vals
            .iter()
            .map(|(_, k)| if let VKind::Const(c) = k { *c } else { U256::ZERO })
            .collect();
        Exec { func, externs, consts }
    }

    /// Takes ownership of a compiled function's code from the backend.
    pub fn take_code(&mut self, id: u32) -> Option<Code> {
        self.live.remove(&id).map(Code)
    }

    /// The functions of the current module as a relocatable object.
    pub fn object(&self) -> Result<Object> {
        self.check_module()?;
        let mut funcs = HashMap::new();
        for (i, f) in self.module.funcs.iter().enumerate() {
            if f.built {
                funcs.insert(f.name.clone(), self.exec_of(i as u32));
            }
        }
        Ok(Object { funcs })
    }

    fn check_module(&self) -> Result<()> {
        if let Some(e) = &self.build_error {
            return Err(self.err(e.clone()));
        }
        for f in &self.module.funcs {
            if f.built
                && let Err(e) = f.verify()
            {
                return Err(self.err(format!("IR verification failed in {}: {e}", f.name)));
            }
        }
        Ok(())
    }
}

impl BackendTypes for IrvmBackend {
    type Type = Ty;
    type Value = Val;
    type StackSlot = Slot;
    type BasicBlock = Blk;
    type Function = FnRef;
}
macro_rules! types {
    ($t:ty) => {
        impl TypeMethods for $t {
            fn type_ptr(&self) -> Ty {
                Ty::Ptr
            }
            fn type_ptr_sized_int(&self) -> Ty {
                Ty::Int(64)
            }
            fn type_int(&self, bits: u32) -> Ty {
                Ty::Int(bits)
            }
            fn type_array(&self, ty: Ty, size: u32) -> Ty {
                Ty::Array(ty.bits(), size)
            }
            fn type_bit_width(&self, ty: Ty) -> u32 {
                match ty {
                    Ty::Int(b) => b,
                    _ => panic!("type_bit_width on non-integer"),
                }
            }
        }
    };
}
types!(IrvmBackend);
types!(IrvmBuilder<'_>);

impl Backend for IrvmBackend {
    type Builder<'a> = IrvmBuilder<'a>;
    type FuncId = u32;

    fn ir_extension(&self) -> &'static str {
        "irvm"
    }
    fn set_module_name(&mut self, _name: &str) {}
    fn config(&self) -> &BackendConfig {
        &self.config
    }
    fn apply_config(&mut self, config: BackendConfig) {
        self.config = config;
    }
    fn dump_ir(&mut self, path: &Path) -> Result<()> {
        std::fs::write(path, self.dump())?;
        Ok(())
    }
    fn dump_disasm(&mut self, path: &Path) -> Result<()> {
        std::fs::write(path, "; no machine code\n")?;
        Ok(())
    }
    fn is_aot(&self) -> bool {
        self.aot
    }
    fn function_name_is_unique(&self, name: &str) -> bool {
        !self.module.by_name.contains_key(name)
    }
    fn build_function(
        &mut self,
        name: &str,
        ret: Option<Ty>,
        params: &[Ty],
        _param_names: &[&str],
        _linkage: Linkage,
    ) -> Result<(IrvmBuilder<'_>, u32)> {
        if self.module.by_name.contains_key(name) {
            return Err(self.err(format!("function {name:?} already exists in the module")));
        }
        let id = self.next_id;
        self.next_id += 1;
        let idx = self.module.funcs.len() as u32;
        let mut f = Func::new(name, params, ret, None);
        f.built = true;
        f.blocks.push(vec![]);
        self.module.funcs.push(f);
        self.module.by_name.insert(name.into(), idx);
        self.ids.insert(id, (name.into(), idx));
        self.names.insert(id, name.into());
        Ok((
            IrvmBuilder {
                module: &mut self.module,
                strings: &mut self.strings,
                error: &mut self.build_error,
                func: idx,
                block: Some(0),
                consts: HashMap::new(),
            },
            id,
        ))
    }
    fn verify_module(&mut self) -> Result<()> {
        self.check_module()
    }
    fn optimize_module(&mut self) -> Result<()> {
        Ok(())
    }
    fn write_object<W: std::io::Write>(&mut self, mut w: W) -> Result<()> {
        self.check_module()?;
        w.write_all(self.dump().as_bytes())?;
        Ok(())
    }
    fn jit_function(&mut self, id: u32) -> Result<usize> {
        if let Some(t) = self.live.get(&id) {
            return Ok(t.addr());
        }
        self.check_module()?;
        let Some((_, idx)) = self.ids.get(&id) else {
            return Err(self.err(format!("unknown function id {id}")));
        };
        let t = exec::Thunk::new(Arc::new(self.exec_of(*idx)));
        let a = t.addr();
        self.live.insert(id, t);
        Ok(a)
    }
    fn function_name(&self, id: u32) -> Option<&str> {
        self.names.get(&id).map(|s| s.as_str())
    }
    fn function_sizes(&self) -> Vec<(String, usize)> {
        self.module
            .funcs
            .iter()
            .filter(|f| f.built)
            .map(|f| (f.name.clone(), f.blocks.iter().map(|b| b.len()).sum()))
            .collect()
    }
    fn clear_ir(&mut self) -> Result<()> {
        self.module = Module::default();
        self.ids.clear();
        self.build_error = None;
        Ok(())
    }
    unsafe fn free_function(&mut self, id: u32) -> Result<()> {
        self.live.remove(&id);
        self.names.remove(&id);
        Ok(())
    }
    unsafe fn free_all_functions(&mut self) -> Result<()> {
        self.live.clear();
        self.names.clear();
        self.clear_ir()
    }
}

pub struct IrvmBuilder<'a> {
    module: &'a mut Module,
    strings: &'a mut Vec<Box<str>>,
    error: &'a mut Option<String>,
    func: u32,
    block: Option<u32>,
    consts: HashMap<(u32, U256), u32>,
}

impl BackendTypes for IrvmBuilder<'_> {
    type Type = Ty;
    type Value = Val;
    type StackSlot = Slot;
    type BasicBlock = Blk;
    type Function = FnRef;
}

pub(crate) fn mask(w: u32) -> U256 {
    if w >= 256 { U256::MAX } else { (U256::from(1u64) << (w as usize)) - U256::from(1u64) }
}

impl IrvmBuilder<'_> {
    fn f(&mut self) -> &mut Func {
        &mut self.module.funcs[self.func as usize]
    }
    fn fail(&mut self, e: String) {
        if self.error.is_none() {
            *self.error = Some(e);
        }
    }
    fn val(&mut self, ty: Ty, k: VKind) -> u32 {
        let f = self.f();
        f.vals.push((ty, k));
        f.vals.len() as u32 - 1
    }
    fn new(&mut self, ty: Ty) -> u32 {
        self.val(ty, VKind::Inst)
    }
    fn konst(&mut self, ty: Ty, v: U256) -> Val {
        let v = v & mask(ty.bits());
        let key = (ty.bits() | if ty == Ty::Ptr { 1 << 20 } else { 0 }, v);
        if let Some(x) = self.consts.get(&key) {
            return Val(*x);
        }
        let x = self.val(ty, VKind::Const(v));
        self.consts.insert(key, x);
        Val(x)
    }
    fn ty(&mut self, v: Val) -> Ty {
        self.f().vals[v.0 as usize].0
    }
    fn push(&mut self, op: Op) {
        let Some(b) = self.block else {
            self.fail("instruction emitted outside a block".into());
            return;
        };
        if self.f().blocks[b as usize].last().is_some_and(|o| o.is_term()) {
            self.fail(format!("instruction after terminator in block {b}: {op:?}"));
        }
        self.f().blocks[b as usize].push(op);
    }
    fn int(&mut self, v: Val) -> u32 {
        match self.ty(v) {
            Ty::Int(b) => b,
            t => {
                self.fail(format!("integer operand expected, got {t:?}"));
                64
            }
        }
    }
    fn is_ptr(&mut self, v: Val) {
        if self.ty(v) != Ty::Ptr {
            let t = self.ty(v);
            self.fail(format!("pointer operand expected, got {t:?}"));
        }
    }
    fn bin(&mut self, op: Bin, a: Val, b: Val) -> Val {
        let w = self.int(a);
        let w2 = self.int(b);
        if w != w2 {
            self.fail(format!("{op:?} operand widths differ: i{w} vs i{w2}"));
        }
        let d = self.new(Ty::Int(w));
        self.push(Op::Bin { op, w, d, a: a.0, b: b.0 });
        Val(d)
    }
    fn imm(&mut self, a: Val, i: i64) -> Val {
        let ty = self.ty(a);
        self.iconst(ty, i)
    }
    fn load_inner(&mut self, ty: Ty, ptr: Val, align: u32) -> Val {
        self.is_ptr(ptr);
        let d = self.new(ty);
        self.push(Op::Load { size: ty.size() as u32, w: ty.bits(), d, p: ptr.0, align });
        Val(d)
    }
    fn store_inner(&mut self, v: Val, ptr: Val, align: u32) {
        self.is_ptr(ptr);
        let size = self.ty(v).size() as u32;
        self.push(Op::Store { size, v: v.0, p: ptr.0, align });
    }
}

fn natural(ty: Ty) -> u32 {
    match ty.size() {
        1 => 1,
        2 => 2,
        3..=4 => 4,
        _ => 8,
    }
}

impl Builder for IrvmBuilder<'_> {
    fn create_block(&mut self, _name: &str) -> Blk {
        let f = self.f();
        f.blocks.push(vec![]);
        Blk(f.blocks.len() as u32 - 1)
    }
    fn create_block_after(&mut self, _after: Blk, name: &str) -> Blk {
        self.create_block(name)
    }
    fn switch_to_block(&mut self, block: Blk) {
        self.block = Some(block.0);
    }
    fn seal_block(&mut self, _block: Blk) {}
    fn seal_all_blocks(&mut self) {}
    fn set_current_block_cold(&mut self) {}
    fn current_block(&mut self) -> Option<Blk> {
        self.block.map(Blk)
    }
    fn block_addr(&mut self, _block: Blk) -> Option<Val> {
        None
    }
    fn add_comment_to_current_inst(&mut self, _comment: &str) {}
    fn fn_param(&mut self, index: usize) -> Val {
        Val(self.f().param_vals[index])
    }
    fn num_fn_params(&self) -> usize {
        self.module.funcs[self.func as usize].params.len()
    }
    fn bool_const(&mut self, value: bool) -> Val {
        self.konst(Ty::Int(1), U256::from(value as u64))
    }
    fn iconst(&mut self, ty: Ty, value: i64) -> Val {
        let v = if value < 0 {
            U256::MAX - U256::from((-(value as i128) - 1) as u128)
        } else {
            U256::from(value as u64)
        };
        self.konst(ty, v)
    }
    fn uconst(&mut self, ty: Ty, value: u64) -> Val {
        self.konst(ty, U256::from(value))
    }
    fn iconst_256(&mut self, value: impl TryInto<U256>) -> Val {
        let v = value.try_into().ok().expect("invalid U256 value");
        self.konst(Ty::Int(256), v)
    }
    fn str_const(&mut self, value: &str) -> Val {
        let b: Box<str> = format!("{value}\0").into();
        let p = b.as_ptr() as usize as u64;
        self.strings.push(b);
        self.konst(Ty::Ptr, U256::from(p))
    }
    fn nullptr(&mut self) -> Val {
        self.konst(Ty::Ptr, U256::ZERO)
    }
    fn new_stack_slot_raw(&mut self, ty: Ty, _name: &str) -> Slot {
        let n = self.f().slots.len() as u32;
        let v = self.val(Ty::Ptr, VKind::Slot(n));
        self.f().slots.push((ty, v));
        Slot(n)
    }
    fn stack_load(&mut self, ty: Ty, slot: Slot, name: &str) -> Val {
        let v = Val(self.f().slots[slot.0 as usize].1);
        self.load(ty, v, name)
    }
    fn stack_store(&mut self, value: Val, slot: Slot) {
        let v = Val(self.f().slots[slot.0 as usize].1);
        self.store(value, v)
    }
    fn stack_addr(&mut self, _ty: Ty, slot: Slot) -> Val {
        Val(self.f().slots[slot.0 as usize].1)
    }
    fn load(&mut self, ty: Ty, ptr: Val, _name: &str) -> Val {
        self.load_inner(ty, ptr, natural(ty))
    }
    fn load_aligned(&mut self, ty: Ty, ptr: Val, align: usize, _name: &str) -> Val {
        self.load_inner(ty, ptr, align as u32)
    }
    fn store(&mut self, value: Val, ptr: Val) {
        let ty = self.ty(value);
        self.store_inner(value, ptr, natural(ty))
    }
    fn store_aligned(&mut self, value: Val, ptr: Val, align: usize) {
        self.store_inner(value, ptr, align as u32)
    }
    fn nop(&mut self) {}
    fn ret(&mut self, values: &[Val]) {
        let v = match values {
            [] => None,
            [v] => Some(v.0),
            _ => {
                self.fail("aggregate return".into());
                None
            }
        };
        let rt = self.f().ret;
        let vt = v.map(|v| self.ty(Val(v)));
        if rt != vt {
            self.fail(format!("return type mismatch: {rt:?} vs {vt:?}"));
        }
        self.push(Op::Ret { v });
    }
    fn assume(&mut self, cond: Val) {
        self.push(Op::Assume { c: cond.0 });
    }
    fn icmp(&mut self, cc: IntCC, a: Val, b: Val) -> Val {
        let w = self.int(a);
        let w2 = self.int(b);
        if w != w2 {
            self.fail(format!("icmp operand widths differ: i{w} vs i{w2}"));
        }
        let d = self.new(Ty::Int(1));
        self.push(Op::Icmp { cc, w, d, a: a.0, b: b.0 });
        Val(d)
    }
    fn icmp_imm(&mut self, cc: IntCC, lhs: Val, rhs: i64) -> Val {
        let r = self.imm(lhs, rhs);
        self.icmp(cc, lhs, r)
    }
    fn is_null(&mut self, ptr: Val) -> Val {
        self.is_ptr(ptr);
        let z = self.nullptr();
        let d = self.new(Ty::Int(1));
        self.push(Op::Icmp { cc: IntCC::Equal, w: 64, d, a: ptr.0, b: z.0 });
        Val(d)
    }
    fn is_not_null(&mut self, ptr: Val) -> Val {
        self.is_ptr(ptr);
        let z = self.nullptr();
        let d = self.new(Ty::Int(1));
        self.push(Op::Icmp { cc: IntCC::NotEqual, w: 64, d, a: ptr.0, b: z.0 });
        Val(d)
    }
    fn br(&mut self, dest: Blk) {
        self.push(Op::Br { t: dest.0 });
    }
    fn brif(&mut self, cond: Val, t: Blk, e: Blk) {
        if self.int(cond) != 1 {
            self.fail("branch condition is not i1".into());
        }
        self.push(Op::Brif { c: cond.0, t: t.0, e: e.0 });
    }
    fn switch(&mut self, index: Val, default: Blk, targets: &[(u64, Blk)], _cold: bool) {
        self.int(index);
        self.push(Op::Switch {
            i: index.0,
            default: default.0,
            targets: targets.iter().map(|(v, b)| (*v, b.0)).collect(),
        });
    }
    fn br_indirect(&mut self, _address: Val, _destinations: &[Blk]) {
        self.fail("br_indirect is unsupported".into());
        self.push(Op::Unreachable);
    }
    fn phi(&mut self, ty: Ty, incoming: &[(Val, Blk)]) -> Val {
        let d = self.new(ty);
        self.push(Op::Phi { d, inc: incoming.iter().map(|(v, b)| (v.0, b.0)).collect() });
        Val(d)
    }
    fn select(&mut self, c: Val, a: Val, b: Val) -> Val {
        if self.int(c) != 1 {
            self.fail("select condition is not i1".into());
        }
        let (ta, tb) = (self.ty(a), self.ty(b));
        if ta != tb {
            self.fail(format!("select operand types differ: {ta:?} vs {tb:?}"));
        }
        let d = self.new(ta);
        self.push(Op::Select { d, c: c.0, a: a.0, b: b.0 });
        Val(d)
    }
    fn iadd(&mut self, a: Val, b: Val) -> Val {
        self.bin(Bin::Add, a, b)
    }
    fn isub(&mut self, a: Val, b: Val) -> Val {
        self.bin(Bin::Sub, a, b)
    }
    fn imul(&mut self, a: Val, b: Val) -> Val {
        self.bin(Bin::Mul, a, b)
    }
    fn udiv(&mut self, a: Val, b: Val) -> Val {
        self.bin(Bin::UDiv, a, b)
    }
    fn sdiv(&mut self, a: Val, b: Val) -> Val {
        self.bin(Bin::SDiv, a, b)
    }
    fn urem(&mut self, a: Val, b: Val) -> Val {
        self.bin(Bin::URem, a, b)
    }
    fn srem(&mut self, a: Val, b: Val) -> Val {
        self.bin(Bin::SRem, a, b)
    }
    fn iadd_imm(&mut self, a: Val, i: i64) -> Val {
        let b = self.imm(a, i);
        self.iadd(a, b)
    }
    fn isub_imm(&mut self, a: Val, i: i64) -> Val {
        let b = self.imm(a, i);
        self.isub(a, b)
    }
    fn imul_imm(&mut self, a: Val, i: i64) -> Val {
        let b = self.imm(a, i);
        self.imul(a, b)
    }
    fn uadd_overflow(&mut self, a: Val, b: Val) -> (Val, Val) {
        let w = self.int(a);
        if w != self.int(b) {
            self.fail("uadd_overflow widths differ".into());
        }
        let d = self.new(Ty::Int(w));
        let o = self.new(Ty::Int(1));
        self.push(Op::Ovf { sub: false, w, d, o, a: a.0, b: b.0 });
        (Val(d), Val(o))
    }
    fn usub_overflow(&mut self, a: Val, b: Val) -> (Val, Val) {
        let w = self.int(a);
        if w != self.int(b) {
            self.fail("usub_overflow widths differ".into());
        }
        let d = self.new(Ty::Int(w));
        let o = self.new(Ty::Int(1));
        self.push(Op::Ovf { sub: true, w, d, o, a: a.0, b: b.0 });
        (Val(d), Val(o))
    }
    fn uadd_sat(&mut self, a: Val, b: Val) -> Val {
        self.bin(Bin::UAddSat, a, b)
    }
    fn umax(&mut self, a: Val, b: Val) -> Val {
        self.bin(Bin::UMax, a, b)
    }
    fn umin(&mut self, a: Val, b: Val) -> Val {
        self.bin(Bin::UMin, a, b)
    }
    fn bswap(&mut self, a: Val) -> Val {
        let w = self.int(a);
        let d = self.new(Ty::Int(w));
        self.push(Op::Bswap { w, d, a: a.0 });
        Val(d)
    }
    fn bitor(&mut self, a: Val, b: Val) -> Val {
        self.bin(Bin::Or, a, b)
    }
    fn bitand(&mut self, a: Val, b: Val) -> Val {
        self.bin(Bin::And, a, b)
    }
    fn bitxor(&mut self, a: Val, b: Val) -> Val {
        self.bin(Bin::Xor, a, b)
    }
    fn bitnot(&mut self, a: Val) -> Val {
        let w = self.int(a);
        let d = self.new(Ty::Int(w));
        self.push(Op::Not { w, d, a: a.0 });
        Val(d)
    }
    fn clz(&mut self, a: Val) -> Val {
        let w = self.int(a);
        let d = self.new(Ty::Int(w));
        self.push(Op::Clz { w, d, a: a.0 });
        Val(d)
    }
    fn bitor_imm(&mut self, a: Val, i: i64) -> Val {
        let b = self.imm(a, i);
        self.bitor(a, b)
    }
    fn bitand_imm(&mut self, a: Val, i: i64) -> Val {
        let b = self.imm(a, i);
        self.bitand(a, b)
    }
    fn bitxor_imm(&mut self, a: Val, i: i64) -> Val {
        let b = self.imm(a, i);
        self.bitxor(a, b)
    }
    fn ishl(&mut self, a: Val, b: Val) -> Val {
        self.bin(Bin::Shl, a, b)
    }
    fn ushr(&mut self, a: Val, b: Val) -> Val {
        self.bin(Bin::UShr, a, b)
    }
    fn sshr(&mut self, a: Val, b: Val) -> Val {
        self.bin(Bin::SShr, a, b)
    }
    fn zext(&mut self, ty: Ty, a: Val) -> Val {
        if self.int(a) >= ty.bits() {
            self.fail("zext does not widen".into());
        }
        let d = self.new(ty);
        self.push(Op::Zext { d, a: a.0 });
        Val(d)
    }
    fn sext(&mut self, ty: Ty, a: Val) -> Val {
        let from = self.int(a);
        if from >= ty.bits() {
            self.fail("sext does not widen".into());
        }
        let d = self.new(ty);
        self.push(Op::Sext { from, to: ty.bits(), d, a: a.0 });
        Val(d)
    }
    fn ireduce(&mut self, ty: Ty, a: Val) -> Val {
        if self.int(a) <= ty.bits() {
            self.fail("ireduce does not narrow".into());
        }
        let d = self.new(ty);
        self.push(Op::Trunc { to: ty.bits(), d, a: a.0 });
        Val(d)
    }
    fn inttoptr(&mut self, a: Val, ty: Ty) -> Val {
        let d = self.new(ty);
        self.push(Op::Trunc { to: 64, d, a: a.0 });
        Val(d)
    }
    fn gep(&mut self, ty: Ty, ptr: Val, indexes: &[Val], _name: &str) -> Val {
        self.is_ptr(ptr);
        let d = self.new(Ty::Ptr);
        let mut scales = vec![];
        let mut cur = ty;
        for (i, x) in indexes.iter().enumerate() {
            if i > 0 {
                cur = match cur {
                    Ty::Array(b, _) => Ty::Int(b),
                    t => {
                        self.fail(format!("gep through non-aggregate {t:?}"));
                        t
                    }
                };
            }
            let w = self.int(*x);
            scales.push((x.0, cur.size() as u64, w));
        }
        self.push(Op::Gep { d, p: ptr.0, scales });
        Val(d)
    }
    fn tail_call(&mut self, function: FnRef, args: &[Val], _t: TailCallKind) -> Option<Val> {
        let (params, ret, name) = {
            let f = &self.module.funcs[function.0 as usize];
            (f.params.clone(), f.ret, f.name.clone())
        };
        if name != "printf" {
            let tys: Vec<Ty> = args.iter().map(|a| self.ty(*a)).collect();
            if tys != params {
                self.fail(format!("call to {name}: argument types {tys:?} vs {params:?}"));
            }
        }
        let d = ret.map(|t| self.new(t));
        self.push(Op::Call { f: function.0, args: args.iter().map(|a| a.0).collect(), d });
        d.map(Val)
    }
    fn is_compile_time_known(&mut self, _value: Val) -> Option<Val> {
        None
    }
    fn memcpy(&mut self, dst: Val, src: Val, len: Val) {
        self.is_ptr(dst);
        self.is_ptr(src);
        self.push(Op::Memcpy { d: dst.0, s: src.0, n: len.0 });
    }
    fn unreachable(&mut self) {
        self.push(Op::Unreachable);
    }
    fn get_or_build_function(
        &mut self,
        name: &str,
        params: &[Ty],
        ret: Option<Ty>,
        _linkage: Linkage,
        build: impl FnOnce(&mut Self),
    ) -> FnRef {
        if let Some(i) = self.module.by_name.get(name) {
            return FnRef(*i);
        }
        let idx = self.module.funcs.len() as u32;
        let mut f = Func::new(name, params, ret, None);
        f.built = true;
        f.blocks.push(vec![]);
        self.module.funcs.push(f);
        self.module.by_name.insert(name.into(), idx);
        let (pf, pb) = (self.func, self.block);
        let pc = std::mem::take(&mut self.consts);
        self.func = idx;
        self.block = Some(0);
        build(self);
        self.func = pf;
        self.block = pb;
        self.consts = pc;
        FnRef(idx)
    }
    fn get_function(&mut self, name: &str) -> Option<FnRef> {
        self.module.by_name.get(name).map(|i| FnRef(*i))
    }
    fn get_printf_function(&mut self) -> FnRef {
        if let Some(i) = self.module.by_name.get("printf") {
            return FnRef(*i);
        }
        self.add_function("printf", &[Ty::Ptr], None, Some(0), Linkage::Import, CallConv::Default)
    }
    fn add_function(
        &mut self,
        name: &str,
        params: &[Ty],
        ret: Option<Ty>,
        address: Option<usize>,
        _linkage: Linkage,
        _call_conv: CallConv,
    ) -> FnRef {
        let idx = self.module.funcs.len() as u32;
        self.module.funcs.push(Func::new(name, params, ret, address));
        self.module.by_name.insert(name.into(), idx);
        FnRef(idx)
    }
    fn add_function_attribute(
        &mut self,
        function: Option<FnRef>,
        attribute: Attribute,
        loc: FunctionAttributeLocation,
    ) {
        let i = function.map(|f| f.0).unwrap_or(self.func);
        let f = &mut self.module.funcs[i as usize];
        match loc {
            FunctionAttributeLocation::Function => f.attrs.func.push(attribute),
            FunctionAttributeLocation::Param(p) => match f.attrs.params.get_mut(p as usize) {
                Some(v) => v.push(attribute),
                None => self.fail(format!("attribute on missing parameter {p}")),
            },
            FunctionAttributeLocation::Return => {}
        }
    }
}
