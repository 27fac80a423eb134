//! A symbolic execution state: call stack, memory, path condition, files, threads.
use crate::expr::*;
use crate::ir::*;
use crate::mem::*;
use std::rc::Rc;

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum RetAct { Normal, ThreadEnd(u32), Finish }

#[derive(Clone)]
pub struct Frame { pub f: Rc<Func>, pub bb: u32, pub ip: u32, pub regs: Vec<V>, pub allocas: Vec<u32>, pub dst: Option<u32>, pub act: RetAct }

#[derive(Clone)]
pub struct Fd { pub path: Rc<str>, pub pos: u64, pub append: bool, pub rd: bool, pub wr: bool }

#[derive(Clone)]
pub enum FdKind { Sink, File(Fd) }

#[derive(Clone, Default)]
pub struct Faults { pub mode: u64, pub nth: u64, pub amount: u64 }

#[derive(Clone, Debug)]
pub enum End { Done, Assume, Panic(String), Abort(String), Mem(String), Deadlock(String), Budget, Abandon, Exit(u64) }

pub enum Trap { Conc(E), Cond(E), End(End) }
pub type R<T> = Result<T, Trap>;

#[derive(Clone)]
pub struct State {
    pub frames: Vec<Frame>,
    pub mem: Mem,
    pub pc: Vec<E>,
    pub known: Rc<FxMap<E, bool>>,
    pub subst: Rc<FxMap<E, u64>>,
    pub model: Rc<Vec<u64>>,
    pub epoch: u32,
    pub files: Rc<std::collections::BTreeMap<Rc<str>, Rc<Obj>>>,
    pub dirs: Rc<std::collections::BTreeSet<String>>,
    pub fds: Vec<Option<FdKind>>,
    pub tid: u32,
    pub threads: Vec<(u64, u64, bool)>, // start, arg, finished
    pub tls: FxMap<(u32, u32), u32>,
    pub errno: FxMap<u32, u32>,
    pub keys: Vec<u64>, // pthread keys: values per (key) for the current thread model
    pub keyvals: FxMap<(u32, u32), u64>,
    pub inputs: Vec<E>,
    pub names: Vec<(Rc<str>, u64, u64)>,
    pub observed: Vec<(Rc<str>, Vec<E>)>,
    pub on_panic: Option<u64>,
    pub on_exit: Option<u64>,
    pub panic_ok: bool,
    pub faults: Faults,
    pub nwrites: u64,
    pub hash_mode: u64,
    pub hashes: FxMap<u64, u64>,
    pub insts: u64,
    pub branches: u32,
    pub marks: Vec<Rc<str>>,
}
