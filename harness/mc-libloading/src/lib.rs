//! `libloading` over the object format of the model linker: a library file holds a reference to recorded code.
use fakellvm::{CODE_OBJ, builtin_addr, object_of, world};
use mc::{Acc, W};
use std::{collections::HashMap, ffi::OsStr, fmt, marker::PhantomData, ops::Deref, sync::Arc, sync::Mutex};

#[derive(Debug)]
pub struct Error(String);
impl fmt::Display for Error {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str(&self.0)
    }
}
impl std::error::Error for Error {}

pub struct Library {
    obj: Arc<irvm::Object>,
    code: Mutex<HashMap<String, irvm::Code>>,
}
impl fmt::Debug for Library {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str("Library")
    }
}
pub struct Symbol<'a, T> {
    ptr: usize,
    _p: PhantomData<&'a T>,
}
impl<T> Deref for Symbol<'_, T> {
    type Target = T;
    fn deref(&self) -> &T {
        assert_eq!(size_of::<T>(), size_of::<usize>());
        unsafe { &*(&self.ptr as *const usize as *const T) }
    }
}
impl Library {
    /// # Safety
    /// As the real one.
    pub unsafe fn new<P: AsRef<OsStr>>(path: P) -> Result<Self, Error> {
        let p = path.as_ref();
        let b = std::fs::read(p).map_err(|e| Error(format!("{p:?}: {e}")))?;
        let obj = object_of(&b).map_err(|e| Error(format!("{p:?}: {e}")))?;
        world(|w| w.libs += 1);
        Ok(Library { obj, code: Mutex::new(HashMap::new()) })
    }
    /// # Safety
    /// As the real one.
    pub unsafe fn get<T>(&self, symbol: &[u8]) -> Result<Symbol<'_, T>, Error> {
        let name = std::str::from_utf8(symbol).map_err(|e| Error(e.to_string()))?.trim_end_matches('\0');
        let mut g = self.code.lock().unwrap();
        if !g.contains_key(name) {
            let c = self.obj.link(name, &builtin_addr).map_err(Error)?;
            g.insert(name.to_string(), c);
        }
        Ok(Symbol { ptr: g[name].addr(), _p: PhantomData })
    }
}
impl Drop for Library {
    fn drop(&mut self) {
        mc::point("unload library", &[Acc(CODE_OBJ, W)]);
        world(|w| w.libs -= 1);
    }
}
