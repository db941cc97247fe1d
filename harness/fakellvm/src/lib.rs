//! Stands in for `revmc-llvm` in the runtime crate under test.
//!
//! Code generation is the instrumented executable backend; ownership of code (resource trackers, dylib guards,
//! loaded objects) follows the contracts of the real crate, and freeing code is visible to the explorer.
#![allow(clippy::all)]

use irvm::{Blk, Code, FnRef, IrvmBackend, IrvmBuilder, Object, Slot, Ty, Val};
use mc::{Acc, Inc, R, W};
use revmc_backend::{Backend, BackendConfig, BackendTypes, Linkage, OptimizationLevel, Result, TypeMethods, eyre};
use std::collections::HashMap;
use std::ffi::{CStr, CString};
use std::path::Path;
use std::sync::{Arc, Mutex};

/// Explorer identity of "the set of live code".
pub const CODE_OBJ: u64 = (1 << 50) + 1;
/// Explorer identity of the amount of live code.
pub const BYTES_OBJ: u64 = (1 << 50) + 3;
/// Explorer identity of the gate in front of the compiler.
pub const GATE_OBJ: u64 = (1 << 50) + 2;
/// Codes identify themselves by a constant `MARK + i`.
pub const MARK: u64 = 0xfa11_0000;
/// Bytes accounted per live JIT function.
pub const FN_BYTES: usize = 1000;

/// Knobs of one scenario and what the execution under way did.
#[derive(Default)]
pub struct World {
    /// Codes (by marker) whose compilation fails.
    pub failing: Vec<u64>,
    /// Compilations wait while this is set.
    pub hold: bool,
    /// Compilations let through while held.
    pub permits: u32,
    /// Creating a backend fails.
    pub no_backend: bool,
    pub no_link: bool,
    objects: Vec<Arc<Object>>,
    /// Markers of the codes compiled, in order.
    pub compiled: Vec<u64>,
    /// Compilations that failed.
    pub failed: Vec<u64>,
    code_bytes: usize,
    /// Loaded libraries alive.
    pub libs: i64,
    /// Backends created.
    pub backends: usize,
    /// Record the shape of the code as well.
    pub shapes: bool,
    /// Every code generation, in order.
    pub log: Vec<Gen>,
}
/// The settings and the shape of the code of one code generation.
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Gen {
    pub marker: u64,
    pub aot: bool,
    pub opt_level: OptimizationLevel,
    pub debug_assertions: bool,
    pub is_dumping: bool,
    pub shape: u64,
}
impl World {
    /// Bytes of JIT code alive.
    pub fn live_bytes(&self) -> usize {
        self.code_bytes
    }
}
static WORLD: Mutex<Option<World>> = Mutex::new(None);

pub fn world<T>(f: impl FnOnce(&mut World) -> T) -> T {
    let mut g = WORLD.lock().unwrap_or_else(|e| e.into_inner());
    f(g.get_or_insert_with(World::default))
}
/// Opens or closes the gate in front of the compiler.
pub fn set_hold(h: bool) {
    mc::point("gate", &[Acc(GATE_OBJ, W)]);
    world(|w| w.hold = h);
}
/// Lets one compilation through.
pub fn permit() {
    mc::point("gate", &[Acc(GATE_OBJ, W)]);
    world(|w| w.permits += 1);
}
pub fn reset(w: World) {
    *WORLD.lock().unwrap_or_else(|e| e.into_inner()) = Some(w);
}

const MAGIC: &[u8] = b"\x7fRVO";

pub fn object_of(bytes: &[u8]) -> std::result::Result<Arc<Object>, String> {
    let b = bytes.strip_prefix(MAGIC).ok_or("invalid object header")?;
    let s = std::str::from_utf8(b).map_err(|_| "invalid object")?;
    let s = s.strip_suffix(".").ok_or("truncated object")?;
    let i: usize = s.trim_start_matches('0').parse().or_else(|_| if s.bytes().all(|c| c == b'0') { Ok(0) } else { Err("invalid object") })?;
    world(|w| w.objects.get(i).cloned()).ok_or_else(|| "unknown object".into())
}

/// Address of a builtin by symbol name.
pub fn builtin_addr(name: &str) -> Option<usize> {
    revmc_builtins::Builtin::parse(name).map(|b| b.addr())
}

#[derive(Clone, Copy, Debug, Default)]
pub struct JitMemoryUsage {
    pub code_bytes: usize,
    pub data_bytes: usize,
}
impl JitMemoryUsage {
    pub fn total_bytes(&self) -> usize {
        self.code_bytes + self.data_bytes
    }
}
pub fn jit_memory_usage() -> Option<JitMemoryUsage> {
    mc::point("jit memory", &[Acc(BYTES_OBJ, R)]);
    Some(JitMemoryUsage { code_bytes: world(|w| w.code_bytes), data_bytes: 0 })
}
pub fn global_gc() {}

type Cell = Arc<Mutex<Option<Code>>>;

/// Keeps a dylib alive. When the last one goes, all code in the dylib goes.
pub struct JitDylibGuard {
    /// Code with the name of its symbol and a digest of what it was made from.
    cells: Mutex<Vec<(String, u64, Cell)>>,
}
impl std::fmt::Debug for JitDylibGuard {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str("JitDylibGuard")
    }
}
impl JitDylibGuard {
    fn new() -> Arc<Self> {
        Arc::new(Self { cells: Mutex::new(vec![]) })
    }
}
impl Drop for JitDylibGuard {
    fn drop(&mut self) {
        let live = self.cells.get_mut().unwrap().iter().any(|c| c.2.lock().unwrap().is_some());
        if live {
            mc::point("dylib cleared", &[Acc(CODE_OBJ, W), Acc(BYTES_OBJ, Inc)]);
            for c in self.cells.get_mut().unwrap().drain(..) {
                free(&c.2);
            }
        }
    }
}

fn free(c: &Cell) {
    if c.lock().unwrap().take().is_some() {
        world(|w| w.code_bytes -= FN_BYTES);
    }
}

pub mod orc {
    use super::*;
    pub struct ResourceTracker {
        pub(super) cell: Cell,
    }
    impl std::fmt::Debug for ResourceTracker {
        fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
            f.write_str("ResourceTracker")
        }
    }
    impl ResourceTracker {
        /// Frees the tracked code.
        pub fn remove(&self) -> std::result::Result<(), String> {
            mc::point("free code", &[Acc(CODE_OBJ, W), Acc(BYTES_OBJ, Inc)]);
            free(&self.cell);
            Ok(())
        }
    }
}

pub struct EvmLlvmBackend {
    b: IrvmBackend,
    jd: Arc<JitDylibGuard>,
    trackers: Vec<(u32, Cell)>,
}
impl std::fmt::Debug for EvmLlvmBackend {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str("EvmLlvmBackend")
    }
}

impl EvmLlvmBackend {
    pub fn new(aot: bool) -> Result<Self> {
        world(|w| {
            w.backends += 1;
            if w.no_backend { Err(eyre::eyre!("no backend")) } else { Ok(()) }
        })?;
        Ok(Self { b: IrvmBackend::new(aot), jd: JitDylibGuard::new(), trackers: vec![] })
    }
    pub fn take_last_resource_tracker(&mut self) -> Option<orc::ResourceTracker> {
        self.trackers.pop().map(|(_, cell)| orc::ResourceTracker { cell })
    }
    pub fn jit_dylib_guard(&self) -> Arc<JitDylibGuard> {
        assert!(!self.b.is_aot(), "jit_dylib_guard called in AOT mode");
        self.jd.clone()
    }
    pub fn pending_symbol_names(&self) -> Vec<CString> {
        vec![]
    }
    pub fn link_jit_object_in_fresh_dylib(
        &mut self,
        symbol: &CStr,
        object: &[u8],
        symbols: &[(CString, usize)],
    ) -> Result<(usize, orc::ResourceTracker, Arc<JitDylibGuard>)> {
        if world(|w| w.no_link) {
            return Err(eyre::eyre!("no link"));
        }
        let o = object_of(object).map_err(|e| eyre::eyre!("{e}"))?;
        let syms: HashMap<&str, usize> = symbols.iter().map(|(n, a)| (n.to_str().unwrap(), *a)).collect();
        let code = o
            .link(symbol.to_str().unwrap(), &|n| syms.get(n).copied())
            .map_err(|e| eyre::eyre!("{e}"))?;
        let jd = JitDylibGuard::new();
        let (addr, cell) = alloc(code, &jd, symbol.to_str().unwrap(), 0)?;
        Ok((addr, orc::ResourceTracker { cell }, jd))
    }
    /// The gate and the injected failures in front of code generation.
    fn compile(&self) -> Result<()> {
        mc::block("compile", &[Acc(GATE_OBJ, R)], &|| !world(|w| w.hold && w.permits == 0));
        world(|w| w.permits -= (w.hold && w.permits > 0) as u32);
        let m = self
            .b
            .find_const(|c| *c >> 16 == irvm::U256::from(MARK >> 16))
            .map_or(u64::MAX, |c| c.wrapping_to::<u64>() - MARK);
        let c = self.b.config();
        let gen_ = Gen {
            marker: m,
            aot: self.b.is_aot(),
            opt_level: c.opt_level,
            debug_assertions: c.debug_assertions,
            is_dumping: c.is_dumping,
            shape: if world(|w| w.shapes) { self.b.shape() } else { 0 },
        };
        world(|w| {
            w.log.push(gen_);
            if w.failing.contains(&m) {
                w.failed.push(m);
                Err(eyre::eyre!("injected compilation failure"))
            } else {
                w.compiled.push(m);
                Ok(())
            }
        })
    }
}

fn alloc(code: Code, jd: &JitDylibGuard, name: &str, shape: u64) -> Result<(usize, Cell)> {
    mc::point("new code", &[Acc(BYTES_OBJ, Inc)]);
    let mut cells = jd.cells.lock().unwrap();
    cells.retain(|c| c.2.lock().unwrap().is_some());
    // One symbol cannot stand for two functions. (Another definition of the very same function is let through.)
    if cells.iter().any(|c| c.0 == name && c.1 != shape) {
        return Err(eyre::eyre!("duplicate definition of symbol '{name}'"));
    }
    let addr = code.addr();
    let cell = Arc::new(Mutex::new(Some(code)));
    cells.push((name.to_string(), shape, cell.clone()));
    world(|w| w.code_bytes += FN_BYTES);
    Ok((addr, cell))
}

impl BackendTypes for EvmLlvmBackend {
    type Type = Ty;
    type Value = Val;
    type StackSlot = Slot;
    type BasicBlock = Blk;
    type Function = FnRef;
}
impl TypeMethods for EvmLlvmBackend {
    fn type_ptr(&self) -> Ty {
        self.b.type_ptr()
    }
    fn type_ptr_sized_int(&self) -> Ty {
        self.b.type_ptr_sized_int()
    }
    fn type_int(&self, bits: u32) -> Ty {
        self.b.type_int(bits)
    }
    fn type_array(&self, ty: Ty, size: u32) -> Ty {
        self.b.type_array(ty, size)
    }
    fn type_bit_width(&self, ty: Ty) -> u32 {
        self.b.type_bit_width(ty)
    }
}
impl Backend for EvmLlvmBackend {
    type Builder<'a> = IrvmBuilder<'a>;
    type FuncId = u32;

    fn ir_extension(&self) -> &'static str {
        "ll"
    }
    fn set_module_name(&mut self, name: &str) {
        self.b.set_module_name(name)
    }
    fn config(&self) -> &BackendConfig {
        self.b.config()
    }
    fn apply_config(&mut self, c: BackendConfig) {
        self.b.apply_config(c)
    }
    fn dump_ir(&mut self, path: &Path) -> Result<()> {
        self.b.dump_ir(path)
    }
    fn dump_disasm(&mut self, path: &Path) -> Result<()> {
        self.b.dump_disasm(path)
    }
    fn is_aot(&self) -> bool {
        self.b.is_aot()
    }
    fn function_name_is_unique(&self, name: &str) -> bool {
        self.b.function_name_is_unique(name)
    }
    fn build_function(
        &mut self,
        name: &str,
        ret: Option<Ty>,
        params: &[Ty],
        param_names: &[&str],
        linkage: Linkage,
    ) -> Result<(IrvmBuilder<'_>, u32)> {
        self.b.build_function(name, ret, params, param_names, linkage)
    }
    fn verify_module(&mut self) -> Result<()> {
        self.b.verify_module()
    }
    fn optimize_module(&mut self) -> Result<()> {
        self.b.optimize_module()
    }
    fn write_object<Wr: std::io::Write>(&mut self, mut w: Wr) -> Result<()> {
        let o = self.b.object()?;
        self.compile()?;
        let i = world(|w| {
            w.objects.push(Arc::new(o));
            w.objects.len() - 1
        });
        w.write_all(MAGIC)?;
        write!(w, "{i:06}.")?;
        Ok(())
    }
    fn jit_function(&mut self, id: u32) -> Result<usize> {
        self.compile()?;
        let (name, shape) = (self.b.function_name(id).unwrap_or_default().to_string(), self.b.shape());
        self.b.jit_function(id)?;
        let code = self.b.take_code(id).ok_or_else(|| eyre::eyre!("no code"))?;
        let (addr, cell) = alloc(code, &self.jd, &name, shape)?;
        self.trackers.push((id, cell));
        Ok(addr)
    }
    fn function_name(&self, id: u32) -> Option<&str> {
        self.b.function_name(id)
    }
    fn function_sizes(&self) -> Vec<(String, usize)> {
        self.b.function_sizes()
    }
    fn clear_ir(&mut self) -> Result<()> {
        self.b.clear_ir()
    }
    unsafe fn free_function(&mut self, id: u32) -> Result<()> {
        if let Some(i) = self.trackers.iter().position(|t| t.0 == id) {
            let (_, cell) = self.trackers.remove(i);
            orc::ResourceTracker { cell }.remove().map_err(|e| eyre::eyre!("{e}"))?;
        }
        unsafe { self.b.free_function(id) }
    }
    unsafe fn free_all_functions(&mut self) -> Result<()> {
        for (_, cell) in std::mem::take(&mut self.trackers) {
            orc::ResourceTracker { cell }.remove().map_err(|e| eyre::eyre!("{e}"))?;
        }
        unsafe { self.b.free_all_functions() }
    }
}
