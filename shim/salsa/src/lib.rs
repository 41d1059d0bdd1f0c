//! Stand-in for salsa 2022 with the interface and the documented semantics analyzer-core uses: inputs,
//! interned and tracked structs, memoized tracked functions, accumulators collected from a query and its
//! transitive dependencies. Setting an input, which takes the database exclusively, forgets all memos.
pub use v_salsa_macros::{accumulator, db, input, interned, jar, tracked};
use std::any::{Any, TypeId};
use std::cell::{Cell, RefCell};
use std::collections::{HashMap, HashSet};
use std::hash::Hash;
use std::marker::PhantomData;

pub type Key = (TypeId, u32);

#[derive(Default)]
pub struct Runtime {
	/// fields of inputs, tracked and interned structs by type; never moved nor freed before the database
	slots: RefCell<HashMap<TypeId, Vec<*mut dyn Any>>>,
	interned: RefCell<HashMap<TypeId, Box<dyn Any>>>,
	/// per function: argument tuple to memo number
	memo_ids: RefCell<HashMap<TypeId, Box<dyn Any>>>,
	memos: RefCell<HashMap<Key, Memo>>,
	accumulated: RefCell<HashMap<(TypeId, Key), Box<dyn Any>>>,
	stack: RefCell<Vec<(Key, Vec<Key>)>>,
	next: Cell<u32>,
	/// executions of tracked functions
	pub executed: Cell<usize>,
}
pub struct Setter<F>(pub F);
impl<F> Setter<F> {
	pub fn to<T>(self, value: T)
	where
		F: FnOnce(T),
	{
		(self.0)(value)
	}
}
struct Memo {
	value: *mut dyn Any,
	deps: Vec<Key>,
}
impl Drop for Runtime {
	fn drop(&mut self) {
		for p in self.slots.get_mut().drain().flat_map(|x| x.1).chain(self.memos.get_mut().drain().map(|x| x.1.value)) {
			unsafe { drop(Box::from_raw(p)) }
		}
	}
}
struct Frame<'a>(&'a Runtime);
impl<'a> Drop for Frame<'a> {
	fn drop(&mut self) { self.0.stack.borrow_mut().pop(); }
}

impl Runtime {
	pub fn new_slot<S: 'static, T: 'static>(&self, fields: T) -> u32 {
		let mut s = self.slots.borrow_mut();
		let v = s.entry(TypeId::of::<S>()).or_default();
		v.push(Box::into_raw(Box::new(fields)));
		v.len() as u32 - 1
	}
	pub fn slot<S: 'static, T: 'static>(&self, id: u32) -> &T {
		let p: *mut dyn Any = self.slots.borrow()[&TypeId::of::<S>()][id as usize];
		unsafe { &*p }.downcast_ref().unwrap()
	}
	pub fn change<S: 'static, T: 'static>(&self, id: u32, f: impl FnOnce(&mut T)) {
		let p: *mut dyn Any = self.slots.borrow()[&TypeId::of::<S>()][id as usize];
		f(unsafe { &mut *p }.downcast_mut().unwrap());
		for m in self.memos.borrow_mut().drain() {
			unsafe { drop(Box::from_raw(m.1.value)) }
		}
		self.accumulated.borrow_mut().clear();
	}
	pub fn intern<S: 'static, T: Hash + Eq + Clone + 'static>(&self, fields: T) -> u32 {
		{
			let mut m = self.interned.borrow_mut();
			let m = m.entry(TypeId::of::<S>()).or_insert_with(|| Box::new(HashMap::<T, u32>::new()));
			if let Some(id) = m.downcast_ref::<HashMap<T, u32>>().unwrap().get(&fields) {
				return *id;
			}
		}
		let id = self.new_slot::<S, T>(fields.clone());
		let mut m = self.interned.borrow_mut();
		m.get_mut(&TypeId::of::<S>()).unwrap().downcast_mut::<HashMap<T, u32>>().unwrap().insert(fields, id);
		id
	}
	pub fn call<F: 'static, A: Hash + Eq + Clone + 'static, V: 'static>(&self, args: A, f: impl FnOnce() -> V) -> &V {
		let key = self.key::<F, A>(args);
		if let Some(top) = self.stack.borrow_mut().last_mut() {
			top.1.push(key)
		}
		let got = self.memos.borrow().get(&key).map(|m| m.value);
		let p = match got {
			Some(p) => p,
			None => {
				if self.stack.borrow().iter().any(|x| x.0 == key) {
					panic!("salsa: cycle of queries")
				}
				self.stack.borrow_mut().push((key, vec![]));
				let v = {
					let frame = Frame(self);
					self.executed.set(self.executed.get() + 1);
					self.accumulated.borrow_mut().retain(|k, _| k.1 != key);
					let v = f();
					let deps = self.stack.borrow().last().unwrap().1.clone();
					drop(frame);
					(v, deps)
				};
				let p: *mut dyn Any = Box::into_raw(Box::new(v.0));
				self.memos.borrow_mut().insert(key, Memo { value: p, deps: v.1 });
				p
			}
		};
		unsafe { &*p }.downcast_ref().unwrap()
	}
	fn key<F: 'static, A: Hash + Eq + Clone + 'static>(&self, args: A) -> Key {
		let mut m = self.memo_ids.borrow_mut();
		let m = m.entry(TypeId::of::<F>()).or_insert_with(|| Box::new(HashMap::<A, u32>::new()));
		let id = *m.downcast_mut::<HashMap<A, u32>>().unwrap().entry(args).or_insert_with(|| {
			self.next.set(self.next.get() + 1);
			self.next.get()
		});
		(TypeId::of::<F>(), id)
	}
	pub fn push<Acc: 'static, D: 'static>(&self, d: D) {
		let stack = self.stack.borrow();
		let Some(top) = stack.last() else { panic!("cannot accumulate values outside of an active tracked function") };
		let mut a = self.accumulated.borrow_mut();
		a.entry((TypeId::of::<Acc>(), top.0))
			.or_insert_with(|| Box::new(Vec::<D>::new()))
			.downcast_mut::<Vec<D>>()
			.unwrap()
			.push(d);
	}
	/// After `call`: what the query and everything it depends on accumulated.
	pub fn collect<F: 'static, A: Hash + Eq + Clone + 'static, Acc: 'static, D: Clone + 'static>(&self, args: A) -> Vec<D> {
		let mut seen = HashSet::new();
		let mut stack = vec![self.key::<F, A>(args)];
		let mut out = vec![];
		while let Some(k) = stack.pop() {
			if !seen.insert(k) {
				continue;
			}
			if let Some(v) = self.accumulated.borrow().get(&(TypeId::of::<Acc>(), k)) {
				out.extend(v.downcast_ref::<Vec<D>>().unwrap().iter().cloned())
			}
			if let Some(m) = self.memos.borrow().get(&k) {
				stack.extend(m.deps.iter().cloned())
			}
		}
		out
	}
}

pub struct Storage<DB: ?Sized> {
	pub runtime: Runtime,
	p: PhantomData<fn(&DB)>,
}
impl<DB: ?Sized> Default for Storage<DB> {
	fn default() -> Self { Storage { runtime: Default::default(), p: PhantomData } }
}
pub trait HasRuntime {
	fn v_runtime(&self) -> &Runtime;
}
pub trait Database: HasRuntime {}
pub trait DbWithJar<J>: HasRuntime {}
/// The trait object a jar's functions take.
pub trait Jar<'db> {
	type DynDb: ?Sized + HasRuntime;
}
pub trait Accumulator {
	type Data: Clone + 'static;
}
