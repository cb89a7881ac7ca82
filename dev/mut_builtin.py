import sys, os, concurrent.futures as cf
sys.path.insert(0, os.path.dirname(__file__))
from mutlib import *
A="funcmap/src/impls_alloc.rs"; C="funcmap/src/impls_core.rs"; S="funcmap/src/impls_std.rs"; R="funcmap/src/array.rs"; L="funcmap/src/lib.rs"
FV="FuncMap<A, B> for Vec<A>"; TV="TryFuncMap<A, B> for Vec<A>"
def B(f,h,m,b): return ("body",f,h,m,b)
def X(f,a,b,n=1): return ("sub",f,a,b,n)
M=[]
def ok(name,*ch): M.append((name,None,ch))
def bad(name,asp,*ch): M.append((name,asp,ch))
V=" impl<A, B> "
# --- refactorings
ok("vec_push", B(A,"impl<A, B> "+FV,"func_map","let mut out = Vec::with_capacity(self.len()); for x in self { out.push(f(x)); } out"))
ok("vec_push_new", B(A,"impl<A, B> "+FV,"func_map","let mut out = Vec::new(); for x in self { let y = f(x); out.push(y); } out"))
ok("vec_try_push", B(A,"impl<A, B> "+TV,"try_func_map","let mut out = Vec::with_capacity(self.len()); for x in self { out.push(f(x)?); } Ok(out)"))
ok("vec_try_match", B(A,"impl<A, B> "+TV,"try_func_map","let mut out = Vec::new(); for x in self { match f(x) { Ok(y) => out.push(y), Err(e) => return Err(e) } } Ok(out)"))
ok("vec_fold", B(A,"impl<A, B> "+FV,"func_map","let n = self.len(); self.into_iter().fold(Vec::with_capacity(n), |mut v, x| { v.push(f(x)); v })"))
ok("vec_extend", B(A,"impl<A, B> "+FV,"func_map","let mut v = Vec::new(); v.extend(self.into_iter().map(f)); v"))
ok("vec_closure", B(A,"impl<A, B> "+FV,"func_map","self.into_iter().map(|x| f(x)).collect::<Vec<_>>()"))
ok("vec_mutf", B(A,"impl<A, B> "+FV,"func_map","self.into_iter().map(&mut f).collect()"))
ok("vec_try_fold", B(A,"impl<A, B> "+TV,"try_func_map","let n = self.len(); self.into_iter().try_fold(Vec::with_capacity(n), |mut v, x| { v.push(f(x)?); Ok(v) })"))
ok("vec_foreach", B(A,"impl<A, B> "+FV,"func_map","let mut v = Vec::new(); self.into_iter().for_each(|x| v.push(f(x))); v"))
ok("vec_while_next", B(A,"impl<A, B> "+FV,"func_map","let mut it = self.into_iter(); let mut v = Vec::new(); while let Some(x) = it.next() { v.push(f(x)); } v"))
ok("vec_loop", B(A,"impl<A, B> "+TV,"try_func_map","let mut it = self.into_iter(); let mut v = Vec::new(); loop { match it.next() { None => return Ok(v), Some(x) => v.push(f(x)?) } }"))
ok("vec_from_iter", B(A,"impl<A, B> "+FV,"func_map","use core::iter::FromIterator; Vec::from_iter(self.into_iter().map(f))"))
ok("vec_boxed_iter", B(A,"impl<A, B> "+FV,"func_map","let g = &mut f; self.into_iter().map(move |a| (*g)(a)).collect()"))
ok("vec_enumerate", B(A,"impl<A, B> "+FV,"func_map","self.into_iter().enumerate().map(|(_, x)| f(x)).collect()"))
ok("vec_iter_loop", B(A,"impl<A, B> FuncMap<A, B> for vec::IntoIter<A>","func_map","let mut out = Vec::with_capacity(self.len()); for x in self { out.push(f(x)); } out.into_iter()"))
ok("veciter_try", B(A,"impl<A, B> TryFuncMap<A, B> for vec::IntoIter<A>","try_func_map","Ok(self.map(f).collect::<Result<Vec<_>, _>>()?.into_iter())"))
ok("veciter_delegate", B(A,"impl<A, B> FuncMap<A, B> for vec::IntoIter<A>","func_map","let v: Vec<A> = self.collect(); FuncMap::func_map(v, f).into_iter()"))
ok("veciter_delegate2", B(A,"impl<A, B> TryFuncMap<A, B> for vec::IntoIter<A>","try_func_map","self.collect::<Vec<A>>().try_func_map(f).map(Vec::into_iter)"))
ok("deque_push", B(A,"impl<A, B> FuncMap<A, B> for VecDeque<A>","func_map","let mut out = VecDeque::with_capacity(self.len()); for x in self { out.push_back(f(x)); } out"))
ok("deque_pop", B(A,"impl<A, B> FuncMap<A, B> for VecDeque<A>","func_map","let mut out = VecDeque::new(); while let Some(x) = self.pop_front() { out.push_back(f(x)); } out"))
ok("ll_push", B(A,"impl<A, B> FuncMap<A, B> for LinkedList<A>","func_map","let mut out = LinkedList::new(); for x in self { out.push_back(f(x)); } out"))
ok("ll_try", B(A,"impl<A, B> TryFuncMap<A, B> for LinkedList<A>","try_func_map","let mut out = LinkedList::new(); for x in self { out.push_back(f(x)?); } Ok(out)"))
ok("btm_insert", B(A,"FuncMap<A, B, TypeParam<0>> for BTreeMap<A, V>","func_map","let mut out = BTreeMap::new(); for (k, v) in self { out.insert(f(k), v); } out"))
ok("btm_try_insert", B(A,"TryFuncMap<A, B, TypeParam<1>> for BTreeMap<K, A>","try_func_map","let mut out = BTreeMap::new(); for (k, v) in self { let v = f(v)?; out.insert(k, v); } Ok(out)"))
ok("btm_try_map", B(A,"TryFuncMap<A, B, TypeParam<1>> for BTreeMap<K, A>","try_func_map","self.into_iter().map(|(k, v)| f(v).map(|v| (k, v))).collect()"))
ok("btm_try_match", B(A,"TryFuncMap<A, B, TypeParam<0>> for BTreeMap<A, V>","try_func_map","self.into_iter().map(|(k, v)| match f(k) { Ok(k) => Ok((k, v)), Err(e) => Err(e) }).collect()"))
ok("bts_insert", B(A,"FuncMap<A, B> for BTreeSet<A>","func_map","let mut s = BTreeSet::new(); for x in self { s.insert(f(x)); } s"))
ok("heap_push", B(A,"FuncMap<A, B> for BinaryHeap<A>","func_map","let mut h = BinaryHeap::with_capacity(self.len()); for x in self { h.push(f(x)); } h"))
ok("heap_vec", B(A,"FuncMap<A, B> for BinaryHeap<A>","func_map","self.into_vec().into_iter().map(f).collect::<alloc::vec::Vec<_>>().into()"))
ok("box_new", B(A,"FuncMap<A, B> for Box<A>","func_map","Box::new(f(*self))"))
ok("box_try", B(A,"TryFuncMap<A, B> for Box<A>","try_func_map","f(*self).map(Box::new)"))
ok("box_try2", B(A,"TryFuncMap<A, B> for Box<A>","try_func_map","let a = *self; match f(a) { Ok(b) => Ok(Box::new(b)), Err(e) => Err(e) }"))
ok("hm_ins", B(S,"FuncMap<A, B, TypeParam<1>> for HashMap<K, A, S>","func_map","let mut out = HashMap::default(); for (k, v) in self { out.insert(k, f(v)); } out"))
ok("hm_cap", B(S,"FuncMap<A, B, TypeParam<1>> for HashMap<K, A, S>","func_map","let mut out = HashMap::with_capacity(self.len()); for (k, v) in self { out.insert(k, f(v)); } out"))
ok("opt_match", B(C,"FuncMap<A, B> for Option<A>","func_map","match self { Some(a) => Some(f(a)), None => None }"))
ok("opt_try", B(C,"TryFuncMap<A, B> for Option<A>","try_func_map","Ok(match self { Some(a) => Some(f(a)?), None => None })"))
ok("opt_try2", B(C,"TryFuncMap<A, B> for Option<A>","try_func_map","match self { Some(a) => f(a).map(Some), None => Ok(None) }"))
ok("opt_try3", B(C,"TryFuncMap<A, B> for Option<A>","try_func_map","self.map_or(Ok(None), |a| f(a).map(Some))"))
ok("optiter", B(C,"FuncMap<A, B> for option::IntoIter<A>","func_map","let o = self.next(); o.map(f).into_iter()"))
ok("optiter2", B(C,"FuncMap<A, B> for option::IntoIter<A>","func_map","match self.next() { Some(a) => Some(f(a)).into_iter(), None => None.into_iter() }"))
ok("optiter_try", B(C,"TryFuncMap<A, B> for option::IntoIter<A>","try_func_map","match self.next() { Some(a) => Ok(Some(f(a)?).into_iter()), None => Ok(None.into_iter()) }"))
ok("resiter", B(C,"FuncMap<A, B> for result::IntoIter<A>","func_map","match self.next() { Some(a) => Ok::<_, ()>(f(a)), None => Err(()) }.into_iter()"))
ok("ri", B(C,"FuncMap<A, B> for RangeInclusive<A>","func_map","let (s, e) = self.into_inner(); let s = f(s); let e = f(e); RangeInclusive::new(s, e)"))
ok("range", B(C,"FuncMap<A, B> for Range<A>","func_map","let Range { start, end } = self; let start = f(start); let end = f(end); Range { start, end }"))
ok("range_try", B(C,"TryFuncMap<A, B> for Range<A>","try_func_map","f(self.start).and_then(|s| f(self.end).map(|e| s..e))"))
ok("cell", B(C,"FuncMap<A, B> for Cell<A>","func_map","Cell::new(f(self.into_inner()))"))
ok("refcell", B(C,"TryFuncMap<A, B> for RefCell<A>","try_func_map","f(self.into_inner()).map(RefCell::new)"))
ok("unsafecell", B(C,"FuncMap<A, B> for UnsafeCell<A>","func_map","let v = self.into_inner(); UnsafeCell::new(f(v))"))
ok("res_map", B(C,"FuncMap<A, B, TypeParam<0>> for Result<A, U>","func_map","self.map(f)"))
ok("res_map_err", B(C,"FuncMap<A, B, TypeParam<1>> for Result<T, A>","func_map","self.map_err(f)"))
ok("res_try", B(C,"TryFuncMap<A, B, TypeParam<0>> for Result<A, U>","try_func_map","match self { Ok(v) => f(v).map(Ok), Err(e) => Ok(Err(e)) }"))
ok("arr_loop", B(C,"FuncMap<A, B> for [A; N]","func_map","let mut it = self.into_iter(); [(); N].map(|()| match it.next() { Some(a) => f(a), None => unreachable!() })"))
ok("arr_fromfn", B(C,"FuncMap<A, B> for [A; N]","func_map","let mut it = IntoIterator::into_iter(self); core::array::from_fn(|_| f(it.next().unwrap()))"))
ok("arr_try_infallible", B(C,"FuncMap<A, B> for [A; N]","func_map","match array::try_map(self, |a| Ok::<B, core::convert::Infallible>(f(a))) { Ok(v) => v, Err(e) => match e {} }"))
ok("over", X(L,"        self.func_map(f)\n    }","        let out = self.func_map(f);\n        out\n    }"))
ok("over_try", X(L,"        self.try_func_map(f)\n    }","        match self.try_func_map(f) { Ok(x) => Ok(x), Err(e) => Err(e) }\n    }"))
ok("helper", X(A,"    use alloc::vec::{self, Vec};","    use alloc::vec::{self, Vec};\n    fn go<A, B, I: Iterator<Item = A>>(it: I, f: impl FnMut(A) -> B) -> Vec<B> { it.map(f).collect() }"),B(A,"impl<A, B> "+FV,"func_map","go(self.into_iter(), f)"),B(A,"impl<A, B> FuncMap<A, B> for vec::IntoIter<A>","func_map","go(self, f).into_iter()"))
ok("helper_try", X(A,"    use alloc::vec::{self, Vec};","    use alloc::vec::{self, Vec};\n    fn go<A, B, E>(it: impl IntoIterator<Item = A>, f: impl FnMut(A) -> Result<B, E>) -> Result<Vec<B>, E> { it.into_iter().map(f).collect() }"),B(A,"impl<A, B> "+TV,"try_func_map","go(self, f)"),B(A,"impl<A, B> TryFuncMap<A, B> for vec::IntoIter<A>","try_func_map","go(self, f).map(IntoIterator::into_iter)"))
# array.rs refactorings
LOOP="""    for value in array {
        // SAFETY: the iterator yields exactly `N` elements,
        // so `guard.init_until_idx` has been increased at most `N - 1` times
        // and hence is within bounds of `guard.array_mut`
        unsafe {
            guard
                .array_mut
                .get_unchecked_mut(guard.init_until_idx)
                // if `f` returns `Err(_)` or panics, then `guard` is dropped
                .write(f(value)?);
        }

        guard.init_until_idx += 1;
    }
"""
DROP="""            unsafe { ptr::drop_in_place(init_slice) };"""
DSL="            let init_slice = unsafe { &mut *(init_slice as *mut [MaybeUninit<T>] as *mut [T]) };\n"
GET="            let init_slice = unsafe { self.array_mut.get_unchecked_mut(..self.init_until_idx) };\n"
def loop(s): return X(R,LOOP,s)
ok("arr_let", loop("for value in array { let mapped_value = f(value)?; unsafe { guard.array_mut.get_unchecked_mut(guard.init_until_idx).write(mapped_value); } guard.init_until_idx += 1; }"))
ok("arr_idx", loop("for value in array { guard.array_mut[guard.init_until_idx] = MaybeUninit::new(f(value)?); guard.init_until_idx += 1; }"))
ok("arr_idxwrite", loop("for value in array { let idx = guard.init_until_idx; guard.array_mut[idx].write(f(value)?); guard.init_until_idx = idx + 1; }"))
ok("arr_enum", loop("for (i, value) in IntoIterator::into_iter(array).enumerate() { let v = f(value)?; guard.array_mut[i] = MaybeUninit::new(v); guard.init_until_idx = i + 1; }"))
ok("arr_while", loop("let mut iter = IntoIterator::into_iter(array); while let Some(value) = iter.next() { let v = f(value)?; unsafe { guard.array_mut.get_unchecked_mut(guard.init_until_idx).write(v) }; guard.init_until_idx += 1; }"))
ok("arr_match", loop("for value in array { match f(value) { Ok(v) => { unsafe { guard.array_mut.get_unchecked_mut(guard.init_until_idx).write(v); } guard.init_until_idx += 1; } Err(e) => return Err(e) } }"))
ok("arr_ptr", loop("for value in array { let v = f(value)?; unsafe { guard.array_mut.as_mut_ptr().add(guard.init_until_idx).write(MaybeUninit::new(v)); } guard.init_until_idx += 1; }"))
ok("arr_ptr2", loop("for value in array { let v = f(value)?; unsafe { ptr::write(guard.array_mut.as_mut_ptr().cast::<B>().add(guard.init_until_idx), v); } guard.init_until_idx += 1; }"))
ok("arr_drop_loop", X(R,DSL,""),X(R,DROP,"            for slot in init_slice { unsafe { slot.assume_init_drop() } }"))
ok("arr_drop_loop2", X(R,DSL,""),X(R,GET,""),X(R,DROP,"            for slot in &mut self.array_mut[..self.init_until_idx] { unsafe { ptr::drop_in_place(slot.as_mut_ptr()) } }"))
ok("arr_drop_idx", X(R,DSL,""),X(R,GET,""),X(R,DROP,"            for i in 0..self.init_until_idx { unsafe { self.array_mut[i].assume_init_drop() } }"))
ok("arr_drop_raw", X(R,DSL,""),X(R,GET,""),X(R,DROP,"            unsafe { ptr::drop_in_place(core::slice::from_raw_parts_mut(self.array_mut.as_mut_ptr().cast::<T>(), self.init_until_idx)) };"))
ok("arr_drop_slice", X(R,DSL,""),X(R,GET,""),X(R,DROP,"            unsafe { ptr::drop_in_place(ptr::slice_from_raw_parts_mut(self.array_mut.as_mut_ptr() as *mut T, self.init_until_idx)) };"))
ok("arr_final_transmute", X(R,"unsafe { ptr::addr_of!(mapped).cast::<[B; N]>().read() }","unsafe { mem::transmute_copy::<_, [B; N]>(&mapped) }"))
ok("arr_final_read", X(R,"unsafe { ptr::addr_of!(mapped).cast::<[B; N]>().read() }","unsafe { (&mapped as *const [MaybeUninit<B>; N] as *const [B; N]).read() }"))
ok("arr_final_ptrread", X(R,"unsafe { ptr::addr_of!(mapped).cast::<[B; N]>().read() }","unsafe { ptr::read(mapped.as_ptr() as *const [B; N]) }"))
ok("arr_final_map", X(R,"unsafe { ptr::addr_of!(mapped).cast::<[B; N]>().read() }","mapped.map(|x| unsafe { x.assume_init() })"))
ok("arr_no_empty", X(R,"        return Ok(unsafe { mem::zeroed() });","        let e: [MaybeUninit<B>; N] = unsafe { MaybeUninit::uninit().assume_init() }; return Ok(unsafe { ptr::addr_of!(e).cast::<[B; N]>().read() });"))
ok("arr_noempty_le", X(R,"debug_assert!(self.init_until_idx < N);","debug_assert!(self.init_until_idx <= N);"))
ok("arr_nofast", X(R,"""    if N == 0 {
        // SAFETY: an empty array is zero-sized and hence has no invalid bit patterns
        return Ok(unsafe { mem::zeroed() });
    }
""",""))
ok("arr_constblock", X(R,"unsafe { MaybeUninit::uninit().assume_init() };","core::array::from_fn(|_| MaybeUninit::uninit());"))
ok("arr_md", X(R,"    mem::forget(guard);","    let _ = mem::ManuallyDrop::new(guard);"))
ok("arr_block", X(R,"        guard.init_until_idx += 1;\n","        let n = guard.init_until_idx + 1; guard.init_until_idx = n;\n"))
ok("arr_closure_writer", loop("let mut put = |g: &mut Guard<'_, B, N>, v: B| { unsafe { g.array_mut.get_unchecked_mut(g.init_until_idx).write(v); } g.init_until_idx += 1; }; for value in array { let v = f(value)?; put(&mut guard, v); }"))
ok("arr_method", X(R,"    impl<T, const N: usize> Drop for Guard","    impl<T, const N: usize> Guard<'_, T, N> { fn push(&mut self, v: T) { self.array_mut[self.init_until_idx] = MaybeUninit::new(v); self.init_until_idx += 1; } fn finish(self) { mem::forget(self) } }\n    impl<T, const N: usize> Drop for Guard"), loop("for value in array { guard.push(f(value)?); }"), X(R,"    mem::forget(guard);","    guard.finish();"))
ok("arr_try_for_each", loop("IntoIterator::into_iter(array).try_for_each(|value| { let v = f(value)?; guard.array_mut[guard.init_until_idx] = MaybeUninit::new(v); guard.init_until_idx += 1; Ok(()) })?;"))
ok("arr_zip", loop("let slots: *mut MaybeUninit<B> = guard.array_mut.as_mut_ptr(); for (i, value) in IntoIterator::into_iter(array).enumerate() { let v = f(value)?; unsafe { slots.add(i).write(MaybeUninit::new(v)) }; guard.init_until_idx += 1; }"))
# --- second batch of refactorings
HEAP="FuncMap<A, B> for BinaryHeap<A>"; THEAP="TryFuncMap<A, B> for BinaryHeap<A>"
ok("s_box_let", B(A,"FuncMap<A, B> for Box<A>","func_map","let inner = *self; let mapped = f(inner); Box::new(mapped)"))
ok("s_box_from", B(A,"FuncMap<A, B> for Box<A>","func_map","Box::from(f(*self))"))
ok("s_box_and", B(A,"TryFuncMap<A, B> for Box<A>","try_func_map","f(*self).map(Into::into)"))
ok("s_box_ifok", B(A,"TryFuncMap<A, B> for Box<A>","try_func_map","let mapped = f(*self)?; let boxed = Box::new(mapped); Ok(boxed)"))
ok("s_heap_extend", B(A,HEAP,"func_map","let mut heap = BinaryHeap::new(); heap.extend(self.into_iter().map(f)); heap"))
ok("s_heap_from", B(A,HEAP,"func_map","let v: alloc::vec::Vec<B> = self.into_iter().map(f).collect(); BinaryHeap::from(v)"))
ok("s_heap_try_vec", B(A,THEAP,"try_func_map","let v = self.into_iter().map(f).collect::<Result<alloc::vec::Vec<_>, _>>()?; Ok(BinaryHeap::from(v))"))
ok("s_heap_try_for", B(A,THEAP,"try_func_map","let mut heap = BinaryHeap::with_capacity(self.len()); for x in self { heap.push(f(x)?); } Ok(heap)"))
ok("s_heapit", B(A,"FuncMap<A, B> for binary_heap::IntoIter<A>","func_map","let mut heap = BinaryHeap::new(); for x in self { heap.push(f(x)); } heap.into_iter()"))
BM0="impl<A, B, V> FuncMap<A, B, TypeParam<0>> for BTreeMap<A, V>"; BM1="impl<K, A, B> FuncMap<A, B, TypeParam<1>> for BTreeMap<K, A>"
TBM0="impl<A, B, V> TryFuncMap<A, B, TypeParam<0>> for BTreeMap<A, V>"; TBM1="impl<K, A, B> TryFuncMap<A, B, TypeParam<1>> for BTreeMap<K, A>"
ok("s_bm_extend", B(A,BM0,"func_map","let mut out = BTreeMap::new(); out.extend(self.into_iter().map(|(k, v)| (f(k), v))); out"))
ok("s_bm_fold", B(A,BM0,"func_map","self.into_iter().fold(BTreeMap::new(), |mut m, (k, v)| { m.insert(f(k), v); m })"))
ok("s_bm_foreach", B(A,BM1,"func_map","let mut m = BTreeMap::new(); self.into_iter().for_each(|(k, v)| { m.insert(k, f(v)); }); m"))
ok("s_bm_while", B(A,BM1,"func_map","let mut it = self.into_iter(); let mut m = BTreeMap::new(); while let Some((k, v)) = it.next() { let v = f(v); let _ = m.insert(k, v); } m"))
ok("s_bm_tryfold", B(A,TBM0,"try_func_map","self.into_iter().try_fold(BTreeMap::new(), |mut m, (k, v)| { m.insert(f(k)?, v); Ok(m) })"))
ok("s_bm_tryforeach", B(A,TBM1,"try_func_map","let mut m = BTreeMap::new(); self.into_iter().try_for_each(|(k, v)| { m.insert(k, f(v)?); Ok(()) })?; Ok(m)"))
ok("s_bm_fromiter", B(A,TBM1,"try_func_map","let it = self.into_iter().map(|(k, v)| -> Result<(K, B), E> { let v = f(v)?; Ok((k, v)) }); Result::from_iter(it)"))
ok("s_bm_let", B(A,TBM1,"try_func_map","let collected: Result<BTreeMap<K, B>, E> = self.into_iter().map(|(k, v)| f(v).map(|v| (k, v))).collect(); collected"))
ok("s_bm_entry", B(A,BM0,"func_map","self.into_iter().map(|entry| { let (key, value) = entry; let key = f(key); (key, value) }).collect()"))
ok("s_bm_idx", B(A,BM0,"func_map","self.into_iter().map(|entry| (f(entry.0), entry.1)).collect()"))
ok("s_bs_for", B(A,"TryFuncMap<A, B> for BTreeSet<A>","try_func_map","let mut s = BTreeSet::new(); for x in self { s.insert(f(x)?); } Ok(s)"))
ok("s_bs_ext", B(A,"FuncMap<A, B> for BTreeSet<A>","func_map","let mut s = BTreeSet::new(); s.extend(self.into_iter().map(f)); s"))
ok("s_ll_extend", B(A,"impl<A, B> FuncMap<A, B> for LinkedList<A>","func_map","let mut out = LinkedList::new(); out.extend(self.into_iter().map(f)); out"))
ok("s_ll_pop", B(A,"impl<A, B> TryFuncMap<A, B> for LinkedList<A>","try_func_map","let mut src = self; let mut out = LinkedList::new(); while let Some(x) = src.pop_front() { out.push_back(f(x)?); } Ok(out)"))
ok("s_dq_vec", B(A,"impl<A, B> FuncMap<A, B> for VecDeque<A>","func_map","let v: alloc::vec::Vec<B> = self.into_iter().map(f).collect(); v.into()"))
ok("s_dq_ext", B(A,"impl<A, B> FuncMap<A, B> for VecDeque<A>","func_map","let mut d = VecDeque::with_capacity(self.len()); d.extend(self.into_iter().map(f)); d"))
ok("s_dq_drain", B(A,"impl<A, B> FuncMap<A, B> for VecDeque<A>","func_map","let mut src = self; src.drain(..).map(f).collect()"))
ok("s_dq_try", B(A,"impl<A, B> TryFuncMap<A, B> for VecDeque<A>","try_func_map","let mut d = VecDeque::new(); for x in self { match f(x) { Ok(y) => d.push_back(y), Err(e) => return Err(e) } } Ok(d)"))
ok("s_vec_drain", B(A,"impl<A, B> "+FV,"func_map","let mut src = self; src.drain(..).map(f).collect()"))
ok("s_vec_reserve", B(A,"impl<A, B> "+FV,"func_map","let mut out = Vec::new(); out.reserve(self.len()); for x in self { out.push(f(x)); } out"))
ok("s_vec_tryforeach", B(A,"impl<A, B> "+TV,"try_func_map","let mut out = Vec::with_capacity(self.len()); self.into_iter().try_for_each(|x| { out.push(f(x)?); Ok(()) })?; Ok(out)"))
ok("s_vec_infallible", B(A,"impl<A, B> "+FV,"func_map","match TryFuncMap::try_func_map(self, |a| Ok::<B, core::convert::Infallible>(f(a))) { Ok(v) => v, Err(e) => match e {} }"))
ok("s_vec_slice", B(A,"impl<A, B> "+FV,"func_map","self.into_boxed_slice().into_vec().into_iter().map(f).collect()"))
ok("s_vec_dbg", B(A,"impl<A, B> "+FV,"func_map","let len = self.len(); let out: Vec<B> = self.into_iter().map(f).collect(); debug_assert_eq!(out.len(), len); out"))
ok("s_vec_noop", B(A,"impl<A, B> "+FV,"func_map","let _ = self.len(); let _unused = 0; if false { return Vec::new(); } self.into_iter().map(f).collect()"))
ok("s_vec_empty", B(A,"impl<A, B> "+FV,"func_map","if self.is_empty() { return Vec::new(); } self.into_iter().map(f).collect()"))
ok("s_vec_iter", B(A,"impl<A, B> "+FV,"func_map","Iterator::collect(Iterator::map(IntoIterator::into_iter(self), f))"))
ok("s_vec_inspect", B(A,"impl<A, B> "+FV,"func_map","let iter = self.into_iter(); let mapped = iter.map(|a| { let b = f(a); b }); mapped.collect()"))
ok("s_vec_byref", B(A,"impl<A, B> "+FV,"func_map","let mut it = self.into_iter(); let out = it.by_ref().map(f).collect(); drop(it); out"))
ok("s_vecit_match", B(A,"impl<A, B> TryFuncMap<A, B> for vec::IntoIter<A>","try_func_map","let mut out = Vec::new(); for x in self { out.push(f(x)?); } Ok(out.into_iter())"))
ok("s_opt_iflet", B(C,"FuncMap<A, B> for Option<A>","func_map","if let Some(a) = self { Some(f(a)) } else { None }"))
ok("s_opt_letelse", B(C,"FuncMap<A, B> for Option<A>","func_map","let Some(a) = self else { return None; }; let b = f(a); Some(b)"))
ok("s_opt_transpose", B(C,"TryFuncMap<A, B> for Option<A>","try_func_map","self.map(|a| f(a)).transpose()"))
ok("s_opt_iter", B(C,"FuncMap<A, B> for Option<A>","func_map","self.into_iter().map(f).next()"))
ok("s_opt_for", B(C,"FuncMap<A, B> for Option<A>","func_map","let mut out = None; for a in self { out = Some(f(a)); } out"))
ok("s_opt_mapor", B(C,"FuncMap<A, B> for Option<A>","func_map","self.map_or_else(|| None, |a| Some(f(a)))"))
ok("s_opt_take", B(C,"FuncMap<A, B> for Option<A>","func_map","let mut this = self; this.take().map(f)"))
ok("s_optit_map", B(C,"FuncMap<A, B> for option::IntoIter<A>","func_map","let mut it = self; let first = it.next(); debug_assert!(true); FuncMap::func_map(first, f).into_iter()"))
ok("s_optit_trydel", B(C,"TryFuncMap<A, B> for option::IntoIter<A>","try_func_map","let mut it = self; it.next().try_func_map(f).map(Option::into_iter)"))
ok("s_optit_collect", B(C,"FuncMap<A, B> for option::IntoIter<A>","func_map","let mut it = self.map(f); it.next().into_iter()"))
ok("s_cell_from", B(C,"FuncMap<A, B> for Cell<A>","func_map","Cell::from(f(self.into_inner()))"))
ok("s_cell_let", B(C,"TryFuncMap<A, B> for Cell<A>","try_func_map","let inner = self.into_inner(); match f(inner) { Ok(b) => Ok(Cell::new(b)), Err(e) => Err(e) }"))
ok("s_refcell", B(C,"FuncMap<A, B> for RefCell<A>","func_map","RefCell::from(f(self.into_inner()))"))
ok("s_poll_map", B(C,"FuncMap<A, B> for Poll<A>","func_map","self.map(f)"))
ok("s_poll_try", B(C,"TryFuncMap<A, B> for Poll<A>","try_func_map","if let Poll::Ready(a) = self { f(a).map(Poll::Ready) } else { Ok(Poll::Pending) }"))
ok("s_bound_try", B(C,"TryFuncMap<A, B> for Bound<A>","try_func_map","let mapped = match self { Bound::Included(a) => Bound::Included(f(a)?), Bound::Excluded(a) => Bound::Excluded(f(a)?), Bound::Unbounded => Bound::Unbounded }; Ok(mapped)"))
ok("s_bound_try2", B(C,"TryFuncMap<A, B> for Bound<A>","try_func_map","match self { Bound::Included(a) => f(a).map(Bound::Included), Bound::Excluded(a) => f(a).map(Bound::Excluded), Bound::Unbounded => Ok(Bound::Unbounded) }"))
ok("s_res_try", B(C,"TryFuncMap<A, B, TypeParam<1>> for Result<T, A>","try_func_map","match self { Ok(t) => Ok(Ok(t)), Err(a) => match f(a) { Ok(b) => Ok(Err(b)), Err(e) => Err(e) } }"))
ok("s_res_letelse", B(C,"FuncMap<A, B, TypeParam<0>> for Result<A, U>","func_map","let a = self?; Ok(f(a))"))
ok("s_res_andthen", B(C,"FuncMap<A, B, TypeParam<0>> for Result<A, U>","func_map","self.and_then(|a| Ok(f(a)))"))
ok("s_resit", B(C,"FuncMap<A, B> for result::IntoIter<A>","func_map","let mut it = self; it.next().map(f).ok_or(()).into_iter()"))
ok("s_resit_try", B(C,"TryFuncMap<A, B> for result::IntoIter<A>","try_func_map","let mut it = self; let mapped = match it.next() { Some(a) => Ok::<B, ()>(f(a)?), None => Err(()) }; Ok(mapped.into_iter())"))
ok("s_range_try", B(C,"TryFuncMap<A, B> for Range<A>","try_func_map","let Range { start, end } = self; let start = f(start)?; let end = f(end)?; Ok(start..end)"))
ok("s_ri_try", B(C,"TryFuncMap<A, B> for RangeInclusive<A>","try_func_map","let (start, end) = self.into_inner(); f(start).and_then(|start| Ok(start..=f(end)?))"))
ok("s_rto", B(C,"FuncMap<A, B> for RangeTo<A>","func_map","RangeTo { end: f(self.end) }"))
ok("s_rfrom_try", B(C,"TryFuncMap<A, B> for RangeFrom<A>","try_func_map","f(self.start).map(|start| start..)"))
ok("s_ph", B(C,"FuncMap<A, B> for PhantomData<A>","func_map","drop(f); Default::default()"),) if 0 else None
ok("s_uc_try", B(C,"TryFuncMap<A, B> for UnsafeCell<A>","try_func_map","let a = self.into_inner(); let b = f(a)?; Ok(UnsafeCell::new(b))"))
ok("s_hm_ext", B(S,"FuncMap<A, B, TypeParam<1>> for HashMap<K, A, S>","func_map","let mut out = HashMap::with_capacity(self.len()); out.extend(self.into_iter().map(|(k, v)| (k, f(v)))); out"))
ok("s_hm_reserve", B(S,"TryFuncMap<A, B, TypeParam<0>> for HashMap<A, V, S>","try_func_map","let mut out = HashMap::new(); out.reserve(self.len()); for (k, v) in self { out.insert(f(k)?, v); } Ok(out)"))
ok("s_hs_for", B(S,"FuncMap<A, B> for HashSet<A, S>","func_map","let mut out = HashSet::with_capacity(self.len()); for x in self { out.insert(f(x)); } out"))
ok("s_hs_try", B(S,"TryFuncMap<A, B> for HashSet<A, S>","try_func_map","let mut out = HashSet::new(); for x in self { let y = f(x)?; out.insert(y); } Ok(out)"))
ok("s_hmit", B(S,"FuncMap<A, B, TypeParam<0>> for hash_map::IntoIter<A, V>","func_map","let mut out = HashMap::new(); for (k, v) in self { out.insert(f(k), v); } out.into_iter()"))
ok("s_hm_drain", B(S,"FuncMap<A, B, TypeParam<1>> for HashMap<K, A, S>","func_map","let mut src = self; src.drain().map(|(k, v)| (k, f(v))).collect()"))
ok("s_hm_hasher", B(S,"FuncMap<A, B, TypeParam<1>> for HashMap<K, A, S>","func_map","let mut out = HashMap::with_capacity_and_hasher(self.len(), Default::default()); for (k, v) in self { out.insert(k, f(v)); } out"))
ok("s_hmx1", B(S,"FuncMap<A, B, TypeParam<1>> for HashMap<K, A, S>","func_map","let mut out = HashMap::default(); for (k, v) in self { out.insert(k, f(v)); } out"))
ok("s_hmx2", B(S,"FuncMap<A, B, TypeParam<1>> for HashMap<K, A, S>","func_map","let mut out = HashMap::with_hasher(S::default()); for (k, v) in self { out.insert(k, f(v)); } out"))
ok("s_hmx3", B(S,"FuncMap<A, B, TypeParam<1>> for HashMap<K, A, S>","func_map","let mut out = HashMap::with_hasher(Default::default()); for (k, v) in self.into_iter() { let b = f(v); out.insert(k, b); } out"))
ok("s_arr_zip", loop("for (slot, value) in guard.array_mut.iter_mut().zip(array) { slot.write(f(value)?); guard.init_until_idx += 1; }"))
ok("s_arr_zip2", loop("for (slot, value) in guard.array_mut.iter_mut().zip(array) { let v = f(value)?; *slot = MaybeUninit::new(v); guard.init_until_idx += 1; }"))
ok("s_arr_zip3", loop("for (value, slot) in IntoIterator::into_iter(array).zip(guard.array_mut.iter_mut()) { slot.write(f(value)?); guard.init_until_idx += 1; }"))
ok("s_arr_zip_enum", loop("for (i, (slot, value)) in guard.array_mut.iter_mut().zip(array).enumerate() { slot.write(f(value)?); guard.init_until_idx = i + 1; }"))
ok("s_arr_getmut", loop("for value in array { let v = f(value)?; if let Some(slot) = guard.array_mut.get_mut(guard.init_until_idx) { slot.write(v); } guard.init_until_idx += 1; }"))
ok("s_arr_itermut", loop("let mut slots = guard.array_mut.iter_mut(); for value in array { let v = f(value)?; if let Some(slot) = slots.next() { slot.write(v); } guard.init_until_idx += 1; }"))
ok("s_arr_drop_iter", X(R,DSL,""),X(R,GET,""),X(R,DROP,"            for slot in self.array_mut.iter_mut().take(self.init_until_idx) { unsafe { slot.assume_init_drop() } }"))
ok("s_arr_drop_split", X(R,GET,"            let (init_slice, _) = self.array_mut.split_at_mut(self.init_until_idx);\n"))
ok("s_arr_drop_idx2", X(R,GET,"            let init_slice = &mut self.array_mut[..self.init_until_idx];\n"))
ok("s_arr_drop_getmut", X(R,GET,"            let init_slice = match self.array_mut.get_mut(..self.init_until_idx) { Some(s) => s, None => return };\n"))
ok("s_arr_method_init", X(R,"    impl<T, const N: usize> Drop for Guard","    impl<T, const N: usize> Guard<'_, T, N> { fn init_slice(&mut self) -> &mut [T] { unsafe { let s = self.array_mut.get_unchecked_mut(..self.init_until_idx); &mut *(s as *mut [MaybeUninit<T>] as *mut [T]) } } unsafe fn push_unchecked(&mut self, v: T) { self.array_mut.get_unchecked_mut(self.init_until_idx).write(v); self.init_until_idx += 1; } }\n    impl<T, const N: usize> Drop for Guard"),X(R,GET+"\n            // SAFETY: by definition of `init_until_idx`, `init_slice` is fully initialized\n"+DSL,""),X(R,DROP,"            unsafe { ptr::drop_in_place(self.init_slice()) };"),loop("for value in array { let v = f(value)?; unsafe { guard.push_unchecked(v) }; }"))
ok("s_arr_const", X(R,"unsafe { MaybeUninit::uninit().assume_init() };","{ let u = MaybeUninit::<[MaybeUninit<B>; N]>::uninit(); unsafe { u.assume_init() } };"))
ok("s_arr_forget2", X(R,"    mem::forget(guard);","    core::mem::forget(guard);"))
ok("s_arr_md2", X(R,"    let mut guard = Guard {\n        array_mut: &mut mapped,\n        init_until_idx: 0,\n    };","    let mut guard: Guard<'_, B, N> = Guard { init_until_idx: 0, array_mut: &mut mapped };"))
ok("s_arr_finaltr", X(R,"unsafe { ptr::addr_of!(mapped).cast::<[B; N]>().read() }","unsafe { mapped.as_ptr().cast::<[B; N]>().read() }"))
ok("s_arr_core", B(C,"TryFuncMap<A, B> for [A; N]","try_func_map","let result = array::try_map(self, f); result"))
ok("s_arr_inf2", B(C,"FuncMap<A, B> for [A; N]","func_map","let mut iter = self.into_iter(); core::array::from_fn(|_| { let a = iter.next().expect(\"as many elements\"); f(a) })"))
# --- breakages
bad("vec_rev","map",B(A,"impl<A, B> "+FV,"func_map","let mut v: Vec<B> = self.into_iter().rev().map(f).collect(); v.reverse(); v"))
bad("vec_rev2","map",B(A,"impl<A, B> "+FV,"func_map","self.into_iter().map(f).rev().collect()"))
bad("vec_skip","map",B(A,"impl<A, B> "+FV,"func_map","self.into_iter().take(1000).map(f).collect()"))
bad("vec_skip2","map",B(A,"impl<A, B> "+FV,"func_map","let mut v = Vec::new(); for (i, x) in self.into_iter().enumerate() { if i == 100 { break; } v.push(f(x)); } v"))
bad("vec_pop","map",B(A,"impl<A, B> "+FV,"func_map","let mut v: Vec<B> = self.into_iter().map(f).collect(); if v.len() > 64 { v.pop(); } v"))
bad("vec_swap","map",B(A,"impl<A, B> "+FV,"func_map","let mut v: Vec<B> = self.into_iter().map(f).collect(); if v.len() > 64 { v.swap(0, 1); } v"))
bad("vec_try_cont","try",B(A,"impl<A, B> "+TV,"try_func_map","let mut out = Vec::new(); let mut err = None; for x in self { match f(x) { Ok(y) => out.push(y), Err(e) => { err = Some(e); } } } match err { Some(e) => Err(e), None => Ok(out) }"))
bad("vec_try_first_cont","try",B(A,"impl<A, B> "+TV,"try_func_map","let mut out = Vec::new(); let mut err = None; for x in self { match f(x) { Ok(y) => out.push(y), Err(e) => { if err.is_none() { err = Some(e); } } } } match err { Some(e) => Err(e), None => Ok(out) }"))
bad("vec_try_eager","try",B(A,"impl<A, B> "+TV,"try_func_map","let v: Vec<_> = self.into_iter().map(f).collect(); v.into_iter().collect()"))
bad("vec_filter","try",B(A,"impl<A, B> "+TV,"try_func_map","let r: Vec<B> = self.into_iter().map(f).take_while(Result::is_ok).filter_map(Result::ok).collect(); Ok(r)"))
bad("vec_partial","map",B(A,"impl<A, B> FuncMap<A, B> for vec::IntoIter<A>","func_map","let mut v: Vec<A> = self.collect(); v.truncate(255); v.into_iter().map(f).collect::<Vec<_>>().into_iter()"))
bad("deque_front","map",B(A,"impl<A, B> FuncMap<A, B> for VecDeque<A>","func_map","let mut out = VecDeque::new(); for x in self { out.push_front(f(x)); } out"))
bad("deque_back","map",B(A,"impl<A, B> FuncMap<A, B> for VecDeque<A>","func_map","let mut out = VecDeque::new(); while let Some(x) = self.pop_back() { out.push_front(f(x)); } out"))
bad("ll_front","map",B(A,"impl<A, B> FuncMap<A, B> for LinkedList<A>","func_map","let mut out = LinkedList::new(); for x in self { out.push_front(f(x)); } out"))
bad("btm_entry","map",B(A,"FuncMap<A, B, TypeParam<0>> for BTreeMap<A, V>","func_map","let mut out = BTreeMap::new(); for (k, v) in self { out.entry(f(k)).or_insert(v); } out"))
bad("btm_rev","map",B(A,"FuncMap<A, B, TypeParam<1>> for BTreeMap<K, A>","func_map","self.into_iter().rev().map(|(k, v)| (k, f(v))).collect()"))
bad("heap_sorted","map",B(A,"FuncMap<A, B> for BTreeSet<A>","func_map","let mut s = self; let mut out = BTreeSet::new(); while let Some(x) = s.pop_last() { out.insert(f(x)); } out"))
bad("opt_none","try",B(C,"TryFuncMap<A, B> for Option<A>","try_func_map","Ok(self.and_then(|a| f(a).ok()))"))
bad("optiter_lost","map",B(C,"FuncMap<A, B> for option::IntoIter<A>","func_map","let _ = self.next(); self.next().map(f).into_iter()"))
bad("range_order","map",B(C,"FuncMap<A, B> for Range<A>","func_map","let end = f(self.end); let start = f(self.start); start..end"))
bad("range_try_order","try",B(C,"TryFuncMap<A, B> for Range<A>","try_func_map","let end = f(self.end)?; Ok(f(self.start)?..end)"))
bad("range_both","try",B(C,"TryFuncMap<A, B> for Range<A>","try_func_map","let s = f(self.start); let e = f(self.end); Ok(s?..e?)"))
bad("ri_swap","map",B(C,"FuncMap<A, B> for RangeInclusive<A>","func_map","let (start, end) = self.into_inner(); let a = f(start); let b = f(end); b..=a"))
bad("bound_swap","map",B(C,"FuncMap<A, B> for Bound<A>","func_map","match self { Self::Included(b) => Bound::Excluded(f(b)), Self::Excluded(b) => Bound::Excluded(f(b)), Self::Unbounded => Bound::Unbounded }"))
bad("poll","try",B(C,"TryFuncMap<A, B> for Poll<A>","try_func_map","match self { Poll::Ready(a) => match f(a) { Ok(b) => Ok(Poll::Ready(b)), Err(_) => Ok(Poll::Pending) }, Poll::Pending => Ok(Poll::Pending) }"))
bad("cf_swap","map",B(C,"FuncMap<T, U, TypeParam<0>> for ControlFlow<T, C>","func_map","match self { Self::Break(v) => ControlFlow::Break(f(v)), Self::Continue(v) => loop { let _ = &v; } }"))
bad("arr_rev","map",B(C,"FuncMap<A, B> for [A; N]","func_map","let mut it = IntoIterator::into_iter(self).rev(); let mut r = [(); N].map(|()| f(it.next().unwrap())); r.reverse(); r"))
bad("arr_leak","mem",X(R,DROP,""))
bad("arr_nocount","mem",X(R,"        guard.init_until_idx += 1;\n",""))
bad("arr_early","mem",loop("for value in array { guard.init_until_idx += 1; let v = f(value)?; unsafe { guard.array_mut.get_unchecked_mut(guard.init_until_idx - 1).write(v) }; }"))
bad("arr_forget_early","mem",X(R,"    for value in array {","    let guard = mem::ManuallyDrop::new(guard); let mut guard = guard;\n    for value in array {"))
bad("arr_forget_input","mem",loop("let mut src = mem::ManuallyDrop::new(array); for i in 0..N { let v = f(unsafe { ptr::read(src.as_mut_ptr().add(i)) })?; guard.array_mut[i] = MaybeUninit::new(v); guard.init_until_idx += 1; }"))
bad("arr_copy","mem",loop("for i in 0..N { let v = f(unsafe { ptr::read(array.as_ptr().add(i)) })?; guard.array_mut[i] = MaybeUninit::new(v); guard.init_until_idx += 1; } mem::forget(array);"))
bad("arr_noforget","mem",X(R,"    mem::forget(guard);","    drop(guard);"))
bad("arr_swapord","try",loop("for value in IntoIterator::into_iter(array).rev() { unsafe { guard.array_mut.get_unchecked_mut(guard.init_until_idx).write(f(value)?); } guard.init_until_idx += 1; }"))
bad("arr_offbyone_drop","mem",X(R,GET,"            let init_slice = unsafe { self.array_mut.get_unchecked_mut(..self.init_until_idx.saturating_sub(1)) };\n"))
bad("arr_dropskip","mem",X(R,GET,"            if self.init_until_idx == 7 { return; }\n"+GET))
bad("arr_nowrite","try",loop("let mut i = 0; for value in array { let v = f(value)?; if i < 1000 { guard.array_mut[guard.init_until_idx] = MaybeUninit::new(v); } guard.init_until_idx += 1; i += 1; }"))
bad("panic_len","panic",B(A,"impl<A, B> "+FV,"func_map","assert!(self.len() < 100000); self.into_iter().map(f).collect()"))
bad("panic_unwrap","panic",B(C,"FuncMap<A, B> for option::IntoIter<A>","func_map","Some(f(self.next().unwrap())).into_iter()"))
bad("panic_resiter","panic",B(C,"FuncMap<A, B> for result::IntoIter<A>","func_map","self.next().map(f).ok_or(()).map_err(|()| panic!()).into_iter()"))
bad("refcell_borrow","map",B(C,"FuncMap<A, B> for Option<A>","func_map","match self { Some(a) => { let b = f(a); Some(b) } None => loop {} }"))
bad("over_twice","over",X(L,"        self.try_func_map(f)\n    }","        let mut f = f; self.try_func_map(move |a| f(a))\n    }"))
bad("intoiter_half","map",B(A,"FuncMap<A, B> for vec::IntoIter<A>","func_map","let n = self.len(); let mut v = Vec::new(); for _ in 0..n / 2 * 2 { if let Some(x) = self.next() { v.push(f(x)); } } v.into_iter()"))

# --- a further independent batch
FL="FuncMap<A, B> for LinkedList<A>"; DQ="FuncMap<A, B> for VecDeque<A>"
HK="FuncMap<A, B, TypeParam<0>> for HashMap<A, V, S>"; HV="FuncMap<A, B, TypeParam<1>> for HashMap<K, A, S>"
BK="FuncMap<A, B, TypeParam<0>> for BTreeMap<A, V>"; BV="FuncMap<A, B, TypeParam<1>> for BTreeMap<K, A>"
bad("z_zst_leak","mem",X(R,"    if N == 0 {","    if mem::size_of::<B>() == 0 {\n        for value in array {\n            mem::forget(f(value)?);\n        }\n        return Ok(unsafe { mem::zeroed() });\n    }\n    if N == 0 {"))
bad("z_len_plus_one","panic",B(A,"impl<A, B> "+FV,"func_map","let mut out = Vec::with_capacity(self.len() + 1); for x in self { out.push(f(x)); } out"))
bad("z_deque_wrapped","map",B(A,"impl<A, B> "+DQ,"func_map","let n = self.as_slices().0.len(); let tail = self.split_off(n); let t: VecDeque<B> = tail.into_iter().map(&mut f).collect(); let mut h: VecDeque<B> = self.into_iter().map(&mut f).collect(); h.extend(t); h"))
bad("z_ll_long","map",B(A,"impl<A, B> "+FL,"func_map","let mut out = LinkedList::new(); for (i, x) in self.into_iter().enumerate() { let y = f(x); if i > 40 { out.push_front(y) } else { out.push_back(y) } } out"))
bad("z_hm_entry","collide",B(S,HK,"func_map","let mut out = HashMap::new(); for (k, v) in self { out.entry(f(k)).or_insert(v); } out"))
bad("z_bm_entry","collide",B(A,BK,"func_map","let mut out = BTreeMap::new(); for (k, v) in self { out.entry(f(k)).or_insert(v); } out"))
bad("z_bm_contains","collide",B(A,BK,"func_map","let mut out = BTreeMap::new(); for (k, v) in self { let k = f(k); if out.contains_key(&k) { out.clear(); } out.insert(k, v); } out"))
bad("z_range_eq","map",B(C,"FuncMap<A, B> for RangeInclusive<A>","func_map","let (start, end) = self.into_inner(); let end = f(end); f(start)..=end"))
bad("z_try_range_lazy","try",B(C,"TryFuncMap<A, B> for RangeInclusive<A>","try_func_map","let (start, end) = self.into_inner(); let e = f(end); let s = f(start)?; Ok(s..=e?)"))
bad("z_heap_peek","map",B(A,"FuncMap<A, B> for BinaryHeap<A>","func_map","let mut out: BinaryHeap<B> = self.into_iter().map(f).collect(); if out.len() > 1000 { out.pop(); } out"))
bad("z_set_skip","map",B(A,"FuncMap<A, B> for BTreeSet<A>","func_map","let mut out = BTreeSet::new(); let mut prev = false; for x in self { let y = f(x); if !prev || out.len() != 77 { prev = true; out.insert(y); } } out"))
bad("z_try_partial","try",B(A,"TryFuncMap<A, B, TypeParam<1>> for BTreeMap<K, A>","try_func_map","let mut out = BTreeMap::new(); for (k, v) in self { match f(v) { Ok(v) => { out.insert(k, v); } Err(e) if out.is_empty() => return Err(e), Err(_) => break } } Ok(out)"))
bad("z_try_last","try",B(A,"TryFuncMap<A, B> for BTreeSet<A>","try_func_map","let mut out = BTreeSet::new(); let mut r = Ok(()); for x in self { match f(x) { Ok(y) => { out.insert(y); } Err(e) => { r = Err(e); break } } } let _ = r.as_ref().ok(); match r { Err(e) if out.len() < 5000 => Err(e), _ => Ok(out) }"))
bad("z_opt_iter_twice","map",B(C,"FuncMap<A, B> for option::IntoIter<A>","func_map","match (self.next(), self.next()) { (Some(a), None) => Some(f(a)).into_iter(), _ => loop {} }"))
bad("z_result_iter_drop","try",B(C,"TryFuncMap<A, B> for result::IntoIter<A>","try_func_map","Ok(self.next().and_then(|a| f(a).ok()).ok_or(()).into_iter())"))
bad("z_bound_excl","try",B(C,"TryFuncMap<A, B> for Bound<A>","try_func_map","Ok(match self { Self::Included(bound) => Bound::Included(f(bound)?), Self::Excluded(bound) => f(bound).map_or(Bound::Unbounded, Bound::Excluded), Self::Unbounded => Bound::Unbounded })"))
bad("z_arr_ptr_swap","mem",loop("for value in array { let idx = guard.init_until_idx; guard.init_until_idx = N - 1; let v = f(value)?; unsafe { guard.array_mut.get_unchecked_mut(idx).write(v); } guard.init_until_idx = idx + 1; }"))
bad("z_arr_guard_after","mem",X(R,"debug_assert!(self.init_until_idx < N);","if self.init_until_idx + 1 >= N { return; }"))
bad("z_deque_trunc","map",B(A,"impl<A, B> "+DQ,"func_map","let n = self.len() as u16 as usize; let mut out = VecDeque::new(); for x in self.into_iter().take(n) { out.push_back(f(x)); } out"))
bad("z_vec_rem","map",B(A,"impl<A, B> "+FV,"func_map","let mut v = self; let mut out = Vec::new(); while v.len() > 8 { out.push(f(v.swap_remove(0))); } out.extend(v.into_iter().map(f)); out"))
bad("z_vec_dedup","map",B(A,"impl<A, B> "+FV,"func_map","let mut out: Vec<B> = self.into_iter().map(f).collect(); out.dedup_by(|a, b| core::ptr::eq(a, b)); out"))
# refactorings
ok("z_vec_drain_all", B(A,"impl<A, B> "+FV,"func_map","let mut v = self; let mut out = Vec::with_capacity(v.len()); out.extend(v.drain(..).map(f)); out"))
ok("z_vec_reserve", B(A,"impl<A, B> "+FV,"func_map","let mut out = Vec::new(); out.reserve_exact(self.len()); for x in self.into_iter() { out.push(f(x)); } out"))
ok("z_vec_box", B(A,"impl<A, B> "+FV,"func_map","let items = self.into_boxed_slice(); items.into_vec().into_iter().map(f).collect()"))
ok("z_heap_vec", B(A,"FuncMap<A, B> for BinaryHeap<A>","func_map","let v: alloc::vec::Vec<B> = self.into_vec().into_iter().map(f).collect(); v.into()"))
ok("z_heap_push", B(A,"FuncMap<A, B> for BinaryHeap<A>","func_map","let mut out = BinaryHeap::with_capacity(self.len()); for x in self { out.push(f(x)); } out"))
ok("z_heap_try", B(A,"TryFuncMap<A, B> for BinaryHeap<A>","try_func_map","let mut out = BinaryHeap::new(); for x in self { out.push(f(x)?); } Ok(out)"))
ok("z_deque_vec", B(A,"impl<A, B> "+DQ,"func_map","let v: alloc::vec::Vec<B> = self.into_iter().map(f).collect(); v.into()"))
ok("z_deque_extend", B(A,"impl<A, B> "+DQ,"func_map","let mut out = VecDeque::new(); out.extend(self.into_iter().map(f)); out"))
ok("z_ll_extend", B(A,"impl<A, B> "+FL,"func_map","let mut out = LinkedList::new(); out.extend(self.into_iter().map(f)); out"))
ok("z_ll_pop", B(A,"impl<A, B> "+FL,"func_map","let mut rest = self; let mut out = LinkedList::new(); while let Some(x) = rest.pop_front() { out.push_back(f(x)); } out"))
ok("z_bv_unzip", B(A,BV,"func_map","let mut out = BTreeMap::new(); out.extend(self.into_iter().map(|(k, v)| (k, f(v)))); out"))
ok("z_bv_fold", B(A,BV,"func_map","self.into_iter().fold(BTreeMap::new(), |mut out, (k, v)| { let _ = out.insert(k, f(v)); out })"))
ok("z_bk_pop", B(A,BV,"func_map","let mut out = BTreeMap::new(); for entry in self { let (k, v) = entry; let mapped = f(v); out.insert(k, mapped); } out"))
ok("z_hk_extend", B(S,HK,"func_map","let mut out = HashMap::new(); out.extend(self.into_iter().map(|(k, v)| (f(k), v))); out"))
ok("z_hk_cap", B(S,HK,"func_map","let mut out = HashMap::with_capacity(self.len()); for (k, v) in self { out.insert(f(k), v); } out"))
ok("z_hv_default", B(S,HV,"func_map","let mut out = HashMap::default(); for (k, v) in self { out.insert(k, f(v)); } out"))
ok("z_box_new", B(A,"FuncMap<A, B> for Box<A>","func_map","Box::new(f(*self))"))
ok("z_box_unbox", B(A,"FuncMap<A, B> for Box<A>","func_map","let value = *self; let mapped = f(value); Box::from(mapped)"))
ok("z_box_try_map", B(A,"TryFuncMap<A, B> for Box<A>","try_func_map","f(*self).map(Box::new)"))
ok("z_poll_map", B(C,"FuncMap<A, B> for Poll<A>","func_map","self.map(f)"))
ok("z_poll_try", B(C,"TryFuncMap<A, B> for Poll<A>","try_func_map","match self { Self::Ready(value) => f(value).map(Poll::Ready), Self::Pending => Ok(Poll::Pending) }"))
ok("z_res_map", B(C,"FuncMap<A, B, TypeParam<0>> for Result<A, U>","func_map","self.map(f)"))
ok("z_res_map_err", B(C,"FuncMap<A, B, TypeParam<1>> for Result<T, A>","func_map","self.map_err(f)"))
ok("z_res_or_else", B(C,"FuncMap<A, B, TypeParam<1>> for Result<T, A>","func_map","self.or_else(|err| Err(f(err)))"))
ok("z_res_try_or", B(C,"TryFuncMap<A, B, TypeParam<1>> for Result<T, A>","try_func_map","match self { Ok(value) => Ok(Ok(value)), Err(err) => f(err).map(Err) }"))
ok("z_cell_new", B(C,"FuncMap<A, B> for Cell<A>","func_map","Cell::new(f(self.into_inner()))"))
ok("z_range_struct", B(C,"FuncMap<A, B> for Range<A>","func_map","let Range { start, end } = self; let start = f(start); let end = f(end); Range { start, end }"))
ok("z_range_incl_new", B(C,"FuncMap<A, B> for RangeInclusive<A>","func_map","let (start, end) = self.into_inner(); let start = f(start); RangeInclusive::new(start, f(end))"))
ok("z_range_try_and", B(C,"TryFuncMap<A, B> for Range<A>","try_func_map","f(self.start).and_then(|start| f(self.end).map(|end| start..end))"))
ok("z_bound_map", B(C,"FuncMap<A, B> for Bound<A>","func_map","use Bound::*; match self { Included(b) => Included(f(b)), Excluded(b) => Excluded(f(b)), Unbounded => Unbounded }"))
ok("z_cf_try", B(C,"TryFuncMap<T, U, TypeParam<1>> for ControlFlow<B, T>","try_func_map","match self { Self::Break(value) => Ok(ControlFlow::Break(value)), Self::Continue(value) => f(value).map(ControlFlow::Continue) }"))
ok("z_opt_match", B(C,"TryFuncMap<A, B> for Option<A>","try_func_map","match self { Some(value) => f(value).map(Some), None => Ok(None) }"))
ok("z_opt_iter_for", B(C,"FuncMap<A, B> for option::IntoIter<A>","func_map","let value = self.next(); value.map(f).into_iter()"))
ok("z_res_iter_match", B(C,"FuncMap<A, B> for result::IntoIter<A>","func_map","match self.next() { Some(value) => Ok(f(value)), None => Err(()) }.into_iter()"))
ok("z_refcell_new", B(C,"TryFuncMap<A, B> for RefCell<A>","try_func_map","f(self.into_inner()).map(RefCell::new)"))
ok("z_arr_match", loop("for value in array { let mapped = match f(value) { Ok(mapped) => mapped, Err(err) => return Err(err) }; let idx = guard.init_until_idx; unsafe { guard.array_mut.get_unchecked_mut(idx) }.write(mapped); guard.init_until_idx = idx + 1; }"))
ok("z_arr_index", loop("for value in array { let mapped = f(value)?; guard.array_mut[guard.init_until_idx] = MaybeUninit::new(mapped); guard.init_until_idx += 1; }"))
ok("z_arr_func_try", B(C,"FuncMap<A, B> for [A; N]","func_map","match array::try_map(self, |value| Ok::<B, core::convert::Infallible>(f(value))) { Ok(mapped) => mapped, Err(never) => match never {} }"))
ok("z_veciter_vec", B(A,"FuncMap<A, B> for vec::IntoIter<A>","func_map","let items: Vec<B> = self.map(f).collect(); items.into_iter()"))
ok("z_veciter_try_q", B(A,"TryFuncMap<A, B> for vec::IntoIter<A>","try_func_map","let items = self.map(f).collect::<Result<Vec<_>, E>>()?; Ok(items.into_iter())"))
bad("dbg_arr_idx","mem",X(R,"guard.init_until_idx += 1;","debug_assert!({\n                guard.init_until_idx += 1;\n                guard.init_until_idx <= N\n            });"))
bad("dbg_set","map",B(A,"FuncMap<A, B> for BTreeSet<A>","func_map","let mut f = f; let mut out = BTreeSet::new(); for item in self { let mapped = f(item); debug_assert!({ out.insert(mapped); !out.is_empty() }); } out"))
bad("dbg_deque","map",B(A,"FuncMap<A, B> for VecDeque<A>","func_map","if cfg!(debug_assertions) { self.into_iter().map(f).collect() } else { self.into_iter().rev().map(f).collect() }"))
ok("dbg_deque_len",B(A,"FuncMap<A, B> for VecDeque<A>","func_map","let len = self.len(); let out: VecDeque<B> = self.into_iter().map(f).collect(); debug_assert!(out.len() == len); out"))
bad("dbg_try_vec","panic",B(A,"TryFuncMap<A, B> for Vec<A>","try_func_map","let mut f = f; let mut out = Vec::with_capacity(self.len()); for item in self { let mapped = f(item); debug_assert!(mapped.is_ok()); out.push(mapped?); } Ok(out)"))

# --- the whole of array.rs' try_map rewritten
_AR=open(os.path.join(os.environ.get("FV_REPO","/repo"),R)).read()
_AB=_AR[_AR.index("    // This guards the target array"):_AR.index("    Ok(mapped)\n}")+len("    Ok(mapped)\n")]
def arr(b): return X(R,_AB,b)
OWN="""    struct Guard<T, const N: usize> {
        array: [MaybeUninit<T>; N],
        len: usize,
    }
    impl<T, const N: usize> Guard<T, N> {
        fn new() -> Self {
            Self { array: unsafe { MaybeUninit::uninit().assume_init() }, len: 0 }
        }
        fn push(&mut self, value: T) {
            self.array[self.len].write(value);
            self.len += 1;
        }
        unsafe fn finish(self) -> [T; N] {
            let this = mem::ManuallyDrop::new(self);
            unsafe { ptr::addr_of!(this.array).cast::<[T; N]>().read() }
        }
    }
    impl<T, const N: usize> Drop for Guard<T, N> {
        fn drop(&mut self) {
            unsafe { ptr::drop_in_place(ptr::slice_from_raw_parts_mut(self.array.as_mut_ptr().cast::<T>(), self.len)) };
        }
    }
"""
ok("full_arr_own", arr(OWN+"""    let mut guard = Guard::new();
    for value in array {
        guard.push(f(value)?);
    }
    Ok(unsafe { guard.finish() })
"""))
ok("full_arr_own_try", arr(OWN+"""    let mut guard: Guard<B, N> = Guard::new();
    IntoIterator::into_iter(array).try_for_each(|value| -> Result<(), E> {
        guard.push(f(value)?);
        Ok(())
    })?;
    Ok(unsafe { guard.finish() })
"""))
ok("full_arr_own_match", arr(OWN+"""    let mut guard: Guard<B, N> = Guard::new();
    for value in array {
        match f(value) {
            Ok(value) => guard.push(value),
            Err(err) => return Err(err),
        }
    }
    debug_assert_eq!(guard.len, N);
    Ok(unsafe { guard.finish() })
"""))
ok("full_arr_own_fold", arr(OWN+"""    IntoIterator::into_iter(array)
        .try_fold(Guard::new(), |mut guard, value| {
            guard.push(f(value)?);
            Ok(guard)
        })
        .map(|guard: Guard<B, N>| unsafe { guard.finish() })
"""))
PTR="""    struct Guard<T> {
        start: *mut T,
        len: usize,
    }
    impl<T> Drop for Guard<T> {
        fn drop(&mut self) {
            unsafe { ptr::drop_in_place(ptr::slice_from_raw_parts_mut(self.start, self.len)) };
        }
    }
"""
ok("full_arr_ptr", arr(PTR+"""    let mut mapped = MaybeUninit::<[B; N]>::uninit();
    let start = mapped.as_mut_ptr().cast::<B>();
    let mut guard = Guard { start, len: 0 };
    for value in array {
        let value = f(value)?;
        unsafe { start.add(guard.len).write(value) };
        guard.len += 1;
    }
    mem::forget(guard);
    Ok(unsafe { mapped.assume_init() })
"""))
ok("full_arr_ptr_idx", arr(PTR+"""    let mut mapped = MaybeUninit::<[B; N]>::uninit();
    let mut guard = Guard { start: mapped.as_mut_ptr().cast::<B>(), len: 0 };
    for (idx, value) in IntoIterator::into_iter(array).enumerate() {
        let value = f(value)?;
        unsafe { guard.start.add(idx).write(value) };
        guard.len = idx + 1;
    }
    mem::forget(guard);
    Ok(unsafe { mapped.assume_init() })
"""))
ok("full_arr_ptr_while", arr(PTR+"""    let mut mapped: [MaybeUninit<B>; N] = unsafe { MaybeUninit::uninit().assume_init() };
    let mut guard = Guard { start: mapped.as_mut_ptr() as *mut B, len: 0 };
    let mut values = IntoIterator::into_iter(array);
    while let Some(value) = values.next() {
        let value = f(value)?;
        unsafe { guard.start.add(guard.len).write(value) };
        guard.len += 1;
    }
    mem::forget(guard);
    Ok(unsafe { mem::transmute_copy(&mapped) })
"""))
ok("full_arr_zip", arr(PTR+"""    let mut mapped: [MaybeUninit<B>; N] = unsafe { MaybeUninit::uninit().assume_init() };
    let mut guard = Guard { start: mapped.as_mut_ptr() as *mut B, len: 0 };
    for (slot, value) in mapped.iter_mut().zip(IntoIterator::into_iter(array)) {
        slot.write(f(value)?);
        guard.len += 1;
    }
    mem::forget(guard);
    Ok(unsafe { mem::transmute_copy(&mapped) })
"""))
ok("full_arr_for_idx", arr(PTR+"""    let mut mapped = MaybeUninit::<[B; N]>::uninit();
    let mut guard = Guard { start: mapped.as_mut_ptr().cast::<B>(), len: 0 };
    let mut values = IntoIterator::into_iter(array);
    for idx in 0..N {
        let value = match values.next() {
            Some(value) => f(value)?,
            None => unreachable!(),
        };
        unsafe { guard.start.add(idx).write(value) };
        guard.len += 1;
    }
    mem::forget(guard);
    Ok(unsafe { mapped.assume_init() })
"""))
ok("full_arr_md_src", arr(PTR.replace("Guard<T>","Guard<T>")+"""    let mut mapped = MaybeUninit::<[B; N]>::uninit();
    let mut guard = Guard { start: mapped.as_mut_ptr().cast::<B>(), len: 0 };
    for value in array {
        let value = match f(value) {
            Ok(value) => value,
            Err(err) => {
                drop(guard);
                return Err(err);
            }
        };
        unsafe { guard.start.add(guard.len).write(value) };
        guard.len += 1;
    }
    let _ = mem::ManuallyDrop::new(guard);
    Ok(unsafe { mapped.assume_init() })
"""))
ok("full_arr_options", arr("""    let mut mapped: [Option<B>; N] = [(); N].map(|()| None);
    for (slot, value) in mapped.iter_mut().zip(array) {
        *slot = Some(f(value)?);
    }
    let _ = (mem::size_of::<u8>(), ptr::null::<MaybeUninit<u8>>());
    Ok(mapped.map(|slot| slot.unwrap()))
"""))
ok("full_arr_fromfn_err", arr("""    let mut values = IntoIterator::into_iter(array);
    let mut error = None;
    let mapped: [Option<B>; N] = core::array::from_fn(|_| {
        if error.is_some() {
            return None;
        }
        match f(values.next()?) {
            Ok(value) => Some(value),
            Err(err) => {
                error = Some(err);
                None
            }
        }
    });
    let _ = (mem::size_of::<u8>(), ptr::null::<MaybeUninit<u8>>());
    match error {
        Some(err) => Err(err),
        None => Ok(mapped.map(|slot| slot.unwrap())),
    }
"""))
ok("full_arr_assert_eq", X(R,"    mem::forget(guard);","    debug_assert_eq!(guard.init_until_idx, N);\n    mem::forget(guard);"))
ok("full_arr_assert_bool", X(R,"    mem::forget(guard);","    debug_assert!(guard.init_until_idx == N);\n    mem::forget(guard);"))
ok("full_arr_assert_ne", X(R,"    mem::forget(guard);","    debug_assert_ne!(guard.init_until_idx, 0);\n    mem::forget(guard);"))
ok("full_arr_assert_ne2", X(R,"    mem::forget(guard);","    debug_assert!(guard.init_until_idx != 0);\n    mem::forget(guard);"))
ok("full_arr_assert_ne3", X(R,"    mem::forget(guard);","    debug_assert_ne!(N, 0);\n    mem::forget(guard);"))
ok("full_arr_assert_ne4", X(R,"    mem::forget(guard);","    debug_assert!(N != 0);\n    mem::forget(guard);"))
ok("full_arr_assert_ne5", X(R,"    for value in array {\n","    debug_assert!(N != 0);\n    for value in array {\n"))
ok("full_arr_assert_eq0", X(R,"    mem::forget(guard);","    assert_eq!(guard.init_until_idx, guard.array_mut.len(), \"filled {}\", N);\n    mem::forget(guard);"))
bad("full_arr_b_push_first","mem", arr(OWN.replace("            self.array[self.len].write(value);\n            self.len += 1;\n","            self.len += 1;\n            self.array[self.len - 1].write(value);\n")+"""    let mut guard = Guard::<B, N>::new();
    for value in array {
        guard.len += 1;
        let value = f(value)?;
        guard.len -= 1;
        guard.push(value);
    }
    Ok(unsafe { guard.finish() })
"""))
bad("full_arr_b_finish","mem", arr(OWN.replace("let this = mem::ManuallyDrop::new(self);","let this = self;")+"""    let mut guard = Guard::<B, N>::new();
    for value in array {
        guard.push(f(value)?);
    }
    Ok(unsafe { guard.finish() })
"""))
bad("full_arr_b_needs","mem", arr(OWN.replace("        fn drop(&mut self) {\n","        fn drop(&mut self) {\n            if mem::size_of::<T>() <= 1 { return; }\n")+"""    let mut guard = Guard::<B, N>::new();
    for value in array {
        guard.push(f(value)?);
    }
    Ok(unsafe { guard.finish() })
"""))
bad("full_arr_b_forget_err","mem", arr(PTR+"""    let mut mapped = MaybeUninit::<[B; N]>::uninit();
    let mut guard = Guard { start: mapped.as_mut_ptr().cast::<B>(), len: 0 };
    for value in array {
        match f(value) {
            Ok(value) => {
                unsafe { guard.start.add(guard.len).write(value) };
                guard.len += 1;
            }
            Err(err) => {
                mem::forget(guard);
                return Err(err);
            }
        }
    }
    mem::forget(guard);
    Ok(unsafe { mapped.assume_init() })
"""))
bad("full_arr_b_noguard","mem", arr("""    let mut mapped: [MaybeUninit<B>; N] = unsafe { MaybeUninit::uninit().assume_init() };
    let mut len = 0;
    for value in array {
        match f(value) {
            Ok(value) => {
                mapped[len].write(value);
                len += 1;
            }
            Err(err) => {
                unsafe { ptr::drop_in_place(ptr::slice_from_raw_parts_mut(mapped.as_mut_ptr() as *mut B, len)) };
                return Err(err);
            }
        }
    }
    Ok(unsafe { mem::transmute_copy(&mapped) })
"""))
bad("full_arr_b_assign","mem", arr(PTR+"""    let mut mapped = MaybeUninit::<[B; N]>::uninit();
    let mut guard = Guard { start: mapped.as_mut_ptr().cast::<B>(), len: 0 };
    for value in array {
        let value = f(value)?;
        unsafe { *guard.start.add(guard.len) = value };
        guard.len += 1;
    }
    mem::forget(guard);
    Ok(unsafe { mapped.assume_init() })
"""))
bad("full_arr_b_len_const","mem", arr(PTR+"""    let mut mapped = MaybeUninit::<[B; N]>::uninit();
    let mut guard = Guard { start: mapped.as_mut_ptr().cast::<B>(), len: 0 };
    for (idx, value) in IntoIterator::into_iter(array).enumerate() {
        let value = f(value)?;
        unsafe { guard.start.add(idx).write(value) };
        guard.len = idx;
    }
    mem::forget(guard);
    Ok(unsafe { mapped.assume_init() })
"""))
bad("full_arr_b_lastfirst","try", arr("""    let mut values = IntoIterator::into_iter(array);
    let mut error = None;
    let mapped: [Option<B>; N] = core::array::from_fn(|_| {
        match f(values.next()?) {
            Ok(value) => Some(value),
            Err(err) => {
                error.get_or_insert(err);
                None
            }
        }
    });
    let _ = (mem::size_of::<u8>(), ptr::null::<MaybeUninit<u8>>());
    match error {
        Some(err) => Err(err),
        None => Ok(mapped.map(|slot| slot.unwrap())),
    }
"""))

# --- iterator adaptors with the error on the side
TVV=("impl<A, B> "+TV,"try_func_map")
ok("side_map_while", B(A,*TVV,"let mut error = None; let mapped: Vec<B> = self.into_iter().map_while(|x| match f(x) { Ok(y) => Some(y), Err(e) => { error = Some(e); None } }).collect(); match error { Some(e) => Err(e), None => Ok(mapped) }"))
ok("side_scan", B(A,*TVV,"let mut error = None; let mapped = self.into_iter().scan(&mut error, |error, x| match f(x) { Ok(y) => Some(y), Err(e) => { **error = Some(e); None } }).collect(); match error { Some(e) => Err(e), None => Ok(mapped) }"))
ok("side_try_for_each", B(A,*TVV,"let mut mapped = Vec::with_capacity(self.len()); self.into_iter().try_for_each(|x| f(x).map(|y| mapped.push(y)))?; Ok(mapped)"))
ok("side_extend_opt", B(A,*TVV,"let mut mapped = Vec::new(); for x in self { mapped.extend(Some(f(x)?)); } Ok(mapped)"))
ok("side_break", B(A,*TVV,"let mut error = None; let mut mapped = Vec::new(); for x in self { match f(x) { Ok(y) => mapped.push(y), Err(e) => { error = Some(e); break; } } } match error { Some(e) => Err(e), None => Ok(mapped) }"))
ok("side_break_val", B(A,*TVV,"let mut mapped = Vec::new(); let mut it = self.into_iter(); loop { match it.next().map(&mut f) { None => break Ok(mapped), Some(Ok(y)) => mapped.push(y), Some(Err(e)) => break Err(e) } }"))
ok("side_transpose", B(A,*TVV,"let mut mapped = Vec::new(); let mut it = self.into_iter(); while let Some(y) = it.next().map(&mut f).transpose()? { mapped.push(y); } Ok(mapped)"))
ok("side_from_fn", B(A,*TVV,"let mut it = self.into_iter(); core::iter::from_fn(|| it.next().map(&mut f)).collect()"))
ok("side_byref", B(A,*TVV,"let mut it = self.into_iter(); let r: Result<Vec<B>, E> = it.by_ref().map(f).collect(); r"))
ok("xx_side_peek", B(A,*TVV,"let mut it = self.into_iter().peekable(); let mut out = Vec::new(); while it.peek().is_some() { if let Some(x) = it.next() { out.push(f(x)?); } } Ok(out)"))
ok("side_drain", B(A,*TVV,"let mut out = Vec::with_capacity(self.len()); for x in self.drain(..) { out.push(f(x)?); } Ok(out)"))
ok("side_flat", B(A,"impl<A, B> "+FV,"func_map","self.into_iter().flat_map(|x| Some(f(x))).collect()"))
ok("side_filter_map", B(A,"impl<A, B> "+FV,"func_map","self.into_iter().filter_map(|x| Some(f(x))).collect()"))
ok("side_successive", B(A,"impl<A, B> "+FV,"func_map","let mut it = self.into_iter(); let mut out = Vec::with_capacity(it.len()); while it.len() > 0 { if let Some(x) = it.next() { out.push(f(x)); } } out"))
ok("side_idx", B(A,"impl<A, B> "+FV,"func_map","let n = self.len(); let mut it = self.into_iter(); let mut out = Vec::with_capacity(n); for _ in 0..n { if let Some(x) = it.next() { out.push(f(x)); } } out"))
ok("side_repeat", B(A,"impl<A, B> "+FV,"func_map","let mut out: Vec<B> = Vec::with_capacity(self.len()); out.extend(self.drain(..).map(&mut f)); out"))
ok("xx_side_rev_pop", B(A,"impl<A, B> "+FV,"func_map","self.reverse(); let mut out = Vec::new(); while let Some(x) = self.pop() { out.push(f(x)); } out"))
ok("side_never", B(A,"impl<A, B> "+FV,"func_map","match TryFuncMap::try_func_map(self, |x| Ok::<_, core::convert::Infallible>(f(x))) { Ok(v) => v, Err(e) => match e {} }"))
bad("side_b_map_while_late","try", B(A,*TVV,"let mut error = None; let mapped: Vec<B> = self.into_iter().filter_map(|x| match f(x) { Ok(y) => Some(y), Err(e) => { error = Some(e); None } }).collect(); match error { Some(e) => Err(e), None => Ok(mapped) }"))
bad("side_b_map_while_lost","try", B(A,*TVV,"let mut error = None; let mapped: Vec<B> = self.into_iter().map_while(|x| match f(x) { Ok(y) => Some(y), Err(e) => { error = Some(e); None } }).collect(); match error { Some(e) if mapped.is_empty() => Err(e), _ => Ok(mapped) }"))

def one(args):
    k,(name,asp,ch),w=args
    d=fresh(w)
    for c in ch:
        p=f"{d}/repo/{c[1]}"; s=open(p).read()
        if c[0]=="body": n=set_body(s,*c[2:])
        else:
            assert c[2] in s,(name,c[2]); n=s.replace(c[2],c[3],c[4])
        assert n!=s,name
        open(p,"w").write(n)
    rc,err,recs=run(d)
    if rc==0 and name.startswith("dbg_"):
        recs+=run(d,("--config","profile.dev.package.funcmap.debug-assertions=false","--config","profile.dev.package.funcmap.overflow-checks=true"))[2]
    if rc!=0: return name,asp,"COMPILE" if recs==[] else "COMPILE?",[l for l in err.splitlines() if l.startswith("error")][:3]
    nb=[(r['aspect'],r['status'],r['fn'],r['msg'][:150]) for r in recs if r['kind']=='fn' and r['status']!='ok']+[r for r in recs if r['kind']=='fatal']
    if asp is None: return name,asp,("pass" if not nb else "FALSE ALARM"),nb
    hit=[x for x in nb if not isinstance(x,dict) and x[0]==asp]
    return name,asp,("pass" if hit else "MISSED"),nb
if __name__=="__main__":
    sel=sys.argv[1:]
    todo=[m for m in M if not sel or any(s in m[0] for s in sel)]
    import threading,queue
    q=queue.Queue(); [q.put(m) for m in todo]; res=[]
    def worker(w):
        while True:
            try: m=q.get_nowait()
            except queue.Empty: return
            try: r=one((0,m,w))
            except Exception as e: r=(m[0],m[1],"EXC",[repr(e)])
            res.append(r)
            if r[2]!="pass" or sel: print(r[2],r[0],r[1],*r[3],sep="\n    ",flush=True)
    ts=[threading.Thread(target=worker,args=(i,)) for i in range(int(os.environ.get('J','8')))]
    [t.start() for t in ts];[t.join() for t in ts]
    print(collections.Counter((r[2],r[1] is None) for r in res))
