//! Flat 64-bit address space: object id in the upper half, offset + BASE in the lower half.
use crate::expr::E;
use crate::ll::*;
use std::rc::Rc;

#[derive(Clone)]
pub struct Obj {
    pub data: Vec<u8>,
    /// per byte: 0 = concrete, otherwise the 8-bit expression + 1
    pub sym: Option<Vec<u32>>,
    pub live: bool,
}

#[derive(Clone)]
pub struct Mem {
    pub objs: Vec<Option<Rc<Obj>>>, // heap and stack, id = index + base
    pub free: Vec<u32>,
    pub globs: Rc<std::collections::HashMap<u32, Obj>>, // written globals
}

#[derive(Debug)]
pub struct MemErr(pub String);

pub const OBJ0: u32 = 0x0100_0000;

impl Mem {
    pub fn new() -> Self { Mem { objs: vec![], free: vec![], globs: Rc::new(Default::default()) } }
    pub fn alloc(&mut self, size: u64) -> u64 {
        let o = Rc::new(Obj { data: vec![0; size as usize], sym: None, live: true });
        let i = if let Some(i) = self.free.pop() { self.objs[i as usize] = Some(o); i } else { self.objs.push(Some(o)); self.objs.len() as u32 - 1 };
        (((i + OBJ0) as u64) << 32) + BASE
    }
    pub fn release(&mut self, addr: u64) -> Result<(), MemErr> {
        let id = (addr >> 32) as u32;
        if id < OBJ0 || (addr & 0xffff_ffff) != BASE { return Err(MemErr(format!("free of {:#x}", addr))); }
        let i = id - OBJ0;
        match self.objs.get_mut(i as usize) { Some(x @ Some(_)) => { *x = None; self.free.push(i); Ok(()) } _ => Err(MemErr(format!("double free {:#x}", addr))) }
    }
    pub fn size_of(&self, m: &Module, addr: u64) -> Option<u64> { self.obj(m, addr, 0).ok().map(|o| match o { Ref::O(o) => o.data.len() as u64, Ref::G(d) => d.len() as u64 }) }
    pub fn obj<'a>(&'a self, m: &'a Module, addr: u64, n: u64) -> Result<Ref<'a>, MemErr> {
        let id = (addr >> 32) as u32;
        let off = (addr & 0xffff_ffff).wrapping_sub(BASE);
        if id >= OBJ0 {
            if let Some(Some(o)) = self.objs.get((id - OBJ0) as usize) {
                if off.wrapping_add(n) <= o.data.len() as u64 && off <= o.data.len() as u64 { return Ok(Ref::O(o)); }
                return Err(MemErr(format!("out of bounds access {:#x}+{} (object of {} bytes)", addr, n, o.data.len())));
            }
            return Err(MemErr(format!("access to dead or invalid object {:#x}", addr)));
        }
        if id >= 1 && (id as usize) <= m.globals.len() {
            if let Some(o) = self.globs.get(&id) { if off + n <= o.data.len() as u64 { return Ok(Ref::O(o)); } }
            else { let g = &m.globals[id as usize - 1]; if off.wrapping_add(n) <= g.data.len() as u64 && off <= g.data.len() as u64 { return Ok(Ref::G(&g.data)); } }
            return Err(MemErr(format!("out of bounds access to global {:#x}+{}", addr, n)));
        }
        Err(MemErr(format!("access to invalid address {:#x}", addr)))
    }
    pub fn obj_mut(&mut self, m: &Module, addr: u64, n: u64) -> Result<&mut Obj, MemErr> {
        let id = (addr >> 32) as u32;
        let off = (addr & 0xffff_ffff).wrapping_sub(BASE);
        if id >= OBJ0 {
            if let Some(Some(o)) = self.objs.get_mut((id - OBJ0) as usize) {
                if off.wrapping_add(n) <= o.data.len() as u64 && off <= o.data.len() as u64 { return Ok(Rc::make_mut(o)); }
                return Err(MemErr(format!("out of bounds write {:#x}+{} (object of {} bytes)", addr, n, o.data.len())));
            }
            return Err(MemErr(format!("write to dead or invalid object {:#x}", addr)));
        }
        if id >= 1 && (id as usize) <= m.globals.len() {
            let g = &m.globals[id as usize - 1];
            if g.constant { return Err(MemErr(format!("write to constant @{}", g.name))); }
            if off.wrapping_add(n) > g.data.len() as u64 { return Err(MemErr(format!("out of bounds write to global {:#x}", addr))); }
            let gm = Rc::make_mut(&mut self.globs);
            return Ok(gm.entry(id).or_insert_with(|| Obj { data: g.data.clone(), sym: None, live: true }));
        }
        Err(MemErr(format!("write to invalid address {:#x}", addr)))
    }
    pub fn off(addr: u64) -> usize { ((addr & 0xffff_ffff) - BASE) as usize }
    pub fn copy(&mut self, m: &Module, d: u64, s: u64, n: u64) -> Result<(), MemErr> {
        if n == 0 { return Ok(()); }
        let so = Self::off(s);
        let n = n as usize;
        let (bytes, sy) = match self.obj(m, s, n as u64)? {
            Ref::O(o) => (o.data[so..so + n].to_vec(), o.sym.as_ref().and_then(|v| { let x = &v[so..so + n]; if x.iter().any(|&e| e != 0) { Some(x.to_vec()) } else { None } })),
            Ref::G(g) => (g[so..so + n].to_vec(), None),
        };
        let dn = Self::off(d);
        let o = self.obj_mut(m, d, n as u64)?;
        o.data[dn..dn + n].copy_from_slice(&bytes);
        match sy {
            Some(x) => { let len = o.data.len(); o.sym.get_or_insert_with(|| vec![0; len])[dn..dn + n].copy_from_slice(&x); }
            None => if let Some(v) = &mut o.sym { v[dn..dn + n].fill(0); },
        }
        Ok(())
    }
    pub fn bytes(&self, m: &Module, a: u64, n: u64) -> Result<Vec<(u8, u32)>, MemErr> {
        if n == 0 { return Ok(vec![]); }
        let o = Self::off(a); let n = n as usize;
        Ok(match self.obj(m, a, n as u64)? {
            Ref::O(x) => (0..n).map(|i| (x.data[o + i], x.sym.as_ref().map(|v| v[o + i]).unwrap_or(0))).collect(),
            Ref::G(g) => g[o..o + n].iter().map(|&b| (b, 0)).collect(),
        })
    }
    pub fn write_byte(&mut self, m: &Module, a: u64, b: u8, e: Option<E>) -> Result<(), MemErr> {
        let o = self.obj_mut(m, a, 1)?;
        let i = Self::off(a);
        match e {
            None => { o.data[i] = b; if let Some(v) = &mut o.sym { v[i] = 0; } }
            Some(x) => { o.data[i] = 0; let len = o.data.len(); o.sym.get_or_insert_with(|| vec![0; len])[i] = x + 1; }
        }
        Ok(())
    }
}
pub enum Ref<'a> { O(&'a Obj), G(&'a Vec<u8>) }
