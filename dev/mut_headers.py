"""Developer tool: C04/C05/C07/C08 against changed copies of /repo. (name, property or None for a refactoring, edits)"""
import os, subprocess, sys, shutil, queue, threading, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
A="funcmap/src/impls_alloc.rs"; C="funcmap/src/impls_core.rs"; S="funcmap/src/impls_std.rs"; R="funcmap/src/array.rs"; L="funcmap/src/lib.rs"
ALL=["C04","C05","C07","C08"]
M=[]
def m(name,prop,*ed): M.append((name,prop,ed))
# refactorings
m("rename_s",None,(S,"impl<A, B, V, S> FuncMap<A, B, TypeParam<0>> for HashMap<A, V, S>","impl<X, B, V, H> FuncMap<X, B, TypeParam<0>> for HashMap<X, V, H>"),(S,"F: FnMut(A) -> B","F: FnMut(X) -> B"))
m("where_moved",None,(A,"impl<A, B> FuncMap<A, B> for BTreeSet<A>\n    where\n        B: Ord,\n","impl<A, B: Ord> FuncMap<A, B> for BTreeSet<A>\n"))
m("explicit_sized",None,(A,"impl<A, B> FuncMap<A, B> for Vec<A> {","impl<A, B> FuncMap<A, B> for Vec<A> where A: Sized, B: Sized {"))
m("explicit_marker",None,(A,"impl<A, B> FuncMap<A, B> for Vec<A> {","impl<A, B> FuncMap<A, B, crate::TypeParam<{ 1 - 1 }>> for Vec<A> {"))
m("eqord",None,(A,"impl<A, B> FuncMap<A, B> for BTreeSet<A>\n    where\n        B: Ord,\n","impl<A, B> FuncMap<A, B> for BTreeSet<A>\n    where\n        B: Eq + Ord,\n"))
m("seal_via_two",None,(L,"pub trait Sealed<P> {}","pub trait Sealed<P>: Base {}\n    pub trait Base {}\n    impl<const N: usize> Base for TypeParam<N> {}"))
m("private_renamed",None,(L,"mod private {","pub(crate) mod private {"))
m("alias_out",None,(A,"impl<A, B> FuncMap<A, B> for Vec<A> {\n        type Output = Vec<B>;","impl<A, B> FuncMap<A, B> for Vec<A> {\n        type Output = VecAlias<B>;"),(A,"    use alloc::vec::{self, Vec};","    use alloc::vec::{self, Vec};\n    type VecAlias<T> = Vec<T>;"))
# C04
m("drop_try","C04",(A,re.compile(r"    impl<A, B> TryFuncMap<A, B> for VecDeque<A> \{.*?\n    \}\n",re.S),""))
m("drop_map","C04",(C,re.compile(r"    impl<A, B> FuncMap<A, B> for RefCell<A> \{.*?\n    \}\n",re.S),""))
m("wrong_idx","C04",(C,re.compile(r"FuncMap<T, U, TypeParam<1>>\s+for ControlFlow<B, T>"),"FuncMap<T, U, TypeParam<2>> for ControlFlow<B, T>"),)
m("swap_out","C04",(A,"impl<A, B> FuncMap<A, B> for BTreeSet<A>\n    where\n        B: Ord,\n    {\n        type Output = BTreeSet<B>;","impl<A, B> FuncMap<A, B> for BTreeSet<A>\n    where\n        B: Ord,\n    {\n        type Output = Vec<B>;"),(A,"use alloc::collections::{btree_set, BTreeSet};","use alloc::collections::{btree_set, BTreeSet};\n use alloc::vec::Vec;"))
# C05
m("clone","C05",(A,"impl<A, B> FuncMap<A, B> for Vec<A> {","impl<A: Clone, B> FuncMap<A, B> for Vec<A> {"))
m("static","C05",(A,"impl<A, B> FuncMap<A, B> for Vec<A> {","impl<A: 'static, B> FuncMap<A, B> for Vec<A> {"))
m("keyord","C05",(A,"impl<A, B, V> FuncMap<A, B, TypeParam<0>> for BTreeMap<A, V>\n    where\n        B: Ord,","impl<A, B, V> FuncMap<A, B, TypeParam<0>> for BTreeMap<A, V>\n    where\n        A: Ord,\n        B: Ord,"))
m("vord","C05",(A,"impl<K, A, B> FuncMap<A, B, TypeParam<1>> for BTreeMap<K, A>\n    where\n        K: Ord,","impl<K, A, B> FuncMap<A, B, TypeParam<1>> for BTreeMap<K, A>\n    where\n        K: Ord,\n        B: Ord,"))
m("hash_s","C05",(S,"impl<A, B, V, S> FuncMap<A, B, TypeParam<0>> for HashMap<A, V, S>\n    where\n        B: Eq + Hash,","impl<A, B, V, S> FuncMap<A, B, TypeParam<0>> for HashMap<A, V, S>\n    where\n        S: Clone,\n        B: Eq + Hash,"))
m("fixed_n","C05",(C,"impl<A, B, const N: usize> FuncMap<A, B> for [A; N] {\n        type Output = [B; N];","impl<A, B> FuncMap<A, B> for [A; 4] {\n        type Output = [B; 4];"))
m("fnsend","C05",(L,re.compile(r"fn func_map_over<Q, F>\(self, f: F\) -> Self::Output\s+where\s+F: FnMut\(A\) -> B"),"fn func_map_over<Q, F>(self, f: F) -> Self::Output where F: Send + FnMut(A) -> B"))
m("same_ty","C05",(C,"impl<A, B, U> FuncMap<A, B, TypeParam<0>> for Result<A, U>","impl<A, B, U: Clone> FuncMap<A, B, TypeParam<0>> for Result<A, U>"))
# C07
m("unseal","C07",(L,"mod private {","pub mod private {"),(L,"/// Making [`FuncMarker`] a sealed trait","/// x"))
m("seal_noarg","C07",(L,"pub trait FuncMarker<P>: private::Sealed<P> {}","pub trait FuncMarker<P>: private::Sealed {}"),(L,"pub trait Sealed<P> {}","pub trait Sealed {}"),(L,"impl<const N: usize> Sealed<TypeParam<N>> for","impl<const N: usize> Sealed for"))
m("blanket","C07",(L,"impl<const N: usize> Sealed<TypeParam<N>> for TypeParam<N> {}","impl<P> Sealed<P> for P {}"),(L,"    use super::TypeParam;\n\n",""))
m("standsfor","C07",(L,"impl<const N: usize> Sealed<TypeParam<N>> for TypeParam<N> {}","impl<const N: usize, const M: usize> Sealed<TypeParam<N>> for TypeParam<M> {}"),(L,"impl<const N: usize> FuncMarker<TypeParam<N>> for TypeParam<N> {}","impl<const N: usize, const M: usize> FuncMarker<TypeParam<N>> for TypeParam<M> {}"))
m("inhabited","C07",(L,"pub enum TypeParam<const N: usize> {}","#[non_exhaustive]\npub struct TypeParam<const N: usize>;"),(L,"match *self {}","f.write_str(\"\")"),(L,"fn fmt(&self, _: &mut","fn fmt(&self, f: &mut"))
m("default1","C07",(L,"pub trait TryFuncMap<A, B, P = TypeParam<0>>","pub trait TryFuncMap<A, B, P = TypeParam<1>>"))
m("q_untied","C07",(L,re.compile(r"(fn func_map_over<Q, F>.*?)Q: FuncMarker<P>",re.S),r"\1Q: FuncMarker<Q>"))
m("q_unbound","C07",(L,re.compile(r"(fn try_func_map_over<Q, E, F>.*?)Q: FuncMarker<P>,",re.S),r"\1"))
m("p_unbound","C07",(L,re.compile(r"(pub trait FuncMap<A, B, P = TypeParam<0>>: Sized)\s*where\s*P: FuncMarker<P>,"),r"\1"))
# C08
m("externstd","C08",(L,"#[cfg(feature = \"alloc\")]\nextern crate alloc;","#[cfg(feature = \"alloc\")]\nextern crate alloc;\n#[cfg(feature = \"alloc\")]\nextern crate std;"))
m("stdpath","C08",(A,"use alloc::collections::{btree_set, BTreeSet};","use std::collections::{btree_set, BTreeSet};"))
m("alwaysstd","C08",(L,"#![cfg_attr(not(feature = \"std\"), no_std)]",""))
m("cfg_alloc","C08",(C,"mod bound {","#[cfg(feature = \"alloc\")]\nmod bound {"))
m("cfg_std","C08",(A,"mod vec_deque {","#[cfg(feature = \"std\")]\nmod vec_deque {"))
m("cfg_behaviour","C08",(C,"            self.map(f)\n        }\n    }\n\n    impl<A, B> TryFuncMap<A, B> for Option<A>","            if cfg!(feature = \"std\") { self.map(f) } else { None }\n        }\n    }\n\n    impl<A, B> TryFuncMap<A, B> for Option<A>"))
# h: fresh batch
m("h_arr_default","C05",(C,"impl<A, B, const N: usize> FuncMap<A, B> for [A; N] {","impl<A, B, const N: usize> FuncMap<A, B> for [A; N]\n    where\n        [A; N]: Sized + Unpin,\n    {"))
m("h_err_debug","C05",(L,"fn try_func_map_over<Q, E, F>(self, f: F) -> Result<Self::Output, E>","fn try_func_map_over<Q, E: core::any::Any, F>(self, f: F) -> Result<Self::Output, E>"))
m("h_over_copy","C05",(L,re.compile(r"(fn func_map_over<Q, F>\(self, f: F\) -> Self::Output\s+where\s+F: )FnMut\(A\) -> B"),r"\1FnMut(A) -> B + Copy"))
m("h_over_q_sized_ord","C05",(L,re.compile(r"(fn func_map_over<Q, F>.*?)Q: FuncMarker<P>",re.S),r"\1Q: FuncMarker<P> + 'static"))
M.pop()
m("h_marker_unit","C07",(L,"impl<const N: usize> FuncMarker<TypeParam<N>> for TypeParam<N> {}","impl<const N: usize> FuncMarker<TypeParam<N>> for TypeParam<N> {}\nimpl FuncMarker<TypeParam<0>> for () {}"),(L,"    impl<const N: usize> Sealed<TypeParam<N>> for TypeParam<N> {}","    impl<const N: usize> Sealed<TypeParam<N>> for TypeParam<N> {}\n    impl Sealed<TypeParam<0>> for () {}"))
m("h_marker_pair","C07",(L,"impl<const N: usize> FuncMarker<TypeParam<N>> for TypeParam<N> {}","impl<const N: usize> FuncMarker<TypeParam<N>> for TypeParam<N> {}\nimpl<const N: usize> FuncMarker<(TypeParam<N>, TypeParam<N>)> for (TypeParam<N>, TypeParam<N>) {}"),(L,"    impl<const N: usize> Sealed<TypeParam<N>> for TypeParam<N> {}","    impl<const N: usize> Sealed<TypeParam<N>> for TypeParam<N> {}\n    impl<P> Sealed<(P, P)> for (P, P) {}"))
m("h_unsealed_p","C07",(L,"pub trait FuncMarker<P>: private::Sealed<P> {}","pub trait FuncMarker<P> {}"),(L,"mod private {","#[allow(dead_code, unreachable_pub)]\nmod private {"))
m("h_cfg_width","C08",(A,"mod vec_deque {","#[cfg(target_pointer_width = \"64\")]\nmod vec_deque {"))
m("h_cfg_debug","C08",(A,"mod vec_deque {","#[cfg(debug_assertions)]\nmod vec_deque {"))
m("h_cfg_any_test","C08",(C,"mod bound {","#[cfg(any(feature = \"std\", test))]\nmod bound {"))
m("h_cfg_panic","C08",(A,"mod vec_deque {","#[cfg(not(panic = \"abort\"))]\nmod vec_deque {"))
m("h_cfg_unix","C08",(S,"impl<A, B, V, S> FuncMap<A, B, TypeParam<0>> for HashMap<A, V, S>","#[cfg(not(windows))]\n    impl<A, B, V, S> FuncMap<A, B, TypeParam<0>> for HashMap<A, V, S>"))
m("h_two_versions","C08",(C,"mod bound {","#[cfg(not(feature = \"alloc\"))]\nmod unit_like {\n    use crate::FuncMap;\n\n    impl<A, B> FuncMap<A, B> for core::mem::ManuallyDrop<A> {\n        type Output = core::mem::ManuallyDrop<B>;\n\n        fn func_map<F>(self, mut f: F) -> Self::Output\n        where\n            F: FnMut(A) -> B,\n        {\n            core::mem::ManuallyDrop::new(f(core::mem::ManuallyDrop::into_inner(self)))\n        }\n    }\n}\n\nmod bound {"))
m("h_static_mut_alloc",None,(A,"mod vec_deque {","#[cfg(feature = \"std\")]\nextern crate std;\n\nmod vec_deque {"))
# g: structure; run with ALLC=1 for the checks of the bodies as well
if os.environ.get("ALLC"): ALL=["C01","C02","C03","C04","C05","C06","C07","C08","C09","C23"]
def mod(n): return re.compile(r"mod "+n+r" \{\n.*?\n\}\n",re.S)
m("g_cell_macro",None,(C,mod("cell"),"""mod cell {
    use crate::{FuncMap, TryFuncMap};

    use core::cell::{Cell, RefCell, UnsafeCell};

    macro_rules! impl_cell {
        ($($cell:ident),*) => {$(
            impl<A, B> FuncMap<A, B> for $cell<A> {
                type Output = $cell<B>;

                fn func_map<F>(self, mut f: F) -> Self::Output
                where
                    F: FnMut(A) -> B,
                {
                    $cell::new(f(self.into_inner()))
                }
            }

            impl<A, B> TryFuncMap<A, B> for $cell<A> {
                type Output = $cell<B>;

                fn try_func_map<E, F>(self, mut f: F) -> Result<Self::Output, E>
                where
                    F: FnMut(A) -> Result<B, E>,
                {
                    f(self.into_inner()).map($cell::new)
                }
            }
        )*};
    }

    impl_cell!(Cell, RefCell, UnsafeCell);
}
"""),(C,mod("ref_cell"),"mod ref_cell {}\n"),(C,mod("unsafe_cell"),"mod unsafe_cell {}\n"))
def _marker():
    t=open("/repo/"+L).read(); i=t.index("impl<const N: usize> Display for TypeParam"); 
    return t
m("g_marker_mod",None,(L,re.compile(r"pub enum TypeParam<const N: usize> \{\}\n"),"pub enum TypeParam<const N: usize> {}\n\n/// Sealing\nuse private as sealed;\n"),(L,"pub trait FuncMarker<P>: private::Sealed<P> {}","pub trait FuncMarker<P>: sealed::Sealed<P> {}"))
m("g_marker_sub",None,(L,"impl<const N: usize> FuncMarker<TypeParam<N>> for TypeParam<N> {}","mod marker {\n    use super::{FuncMarker, TypeParam};\n\n    impl<const N: usize> FuncMarker<TypeParam<N>> for TypeParam<N> {}\n}"))
m("g_marker_moved",None,(L,"pub enum TypeParam<const N: usize> {}","pub use marker::TypeParam;\n\nmod marker {\n    /// marker\n    #[derive(Debug)]\n    pub enum TypeParam<const N: usize> {}\n}"),(L,re.compile(r"#\[derive\(([A-Za-z, ]*)\)\]\n(pub use marker::TypeParam;\n\nmod marker \{\n    /// marker\n)    #\[derive\(Debug\)\]"),r"\2    #[derive(\1)]"))
m("g_seal_where",None,(L,"pub trait FuncMarker<P>: private::Sealed<P> {}","pub trait FuncMarker<P>\nwhere\n    Self: private::Sealed<P>,\n{\n}"))
m("g_seal_assoc",None,(L,"    pub trait Sealed<P> {}\n\n    impl<const N: usize> Sealed<TypeParam<N>> for TypeParam<N> {}","    pub trait Sealed<P> {\n        const INDEX: usize;\n    }\n\n    impl<const N: usize> Sealed<TypeParam<N>> for TypeParam<N> {\n        const INDEX: usize = N;\n    }"))
m("g_default_ufcs",None,(L,"        self.func_map(f)\n","        FuncMap::<A, B, P>::func_map(self, f)\n"),(L,"        self.try_func_map(f)\n","        TryFuncMap::<A, B, P>::try_func_map(self, f)\n"))
m("g_default_closure",None,(L,"        self.func_map(f)\n","        let mut f = f;\n        self.func_map(|x| f(x))\n"),(L,"        self.try_func_map(f)\n","        let mut f = f;\n        self.try_func_map(&mut f)\n"))
m("g_inline",None,(C,re.compile(r"        fn (func_map|try_func_map)<"),r"        #[inline]\n        fn \1<"),(A,"        fn func_map<F>(self, f: F)","        #[inline(always)]\n        #[must_use]\n        fn func_map<F>(self, f: F)"))
m("g_vec_macro",None,(A,mod("vec_deque"),"""mod vec_deque {
    use crate::{FuncMap, TryFuncMap};

    use alloc::collections::{vec_deque, VecDeque};

    macro_rules! impl_iterable {
        ($ty:ty, $out:ty, $conv:expr) => {
            impl<A, B> FuncMap<A, B> for $ty {
                type Output = $out;

                fn func_map<F>(self, f: F) -> Self::Output
                where
                    F: FnMut(A) -> B,
                {
                    ($conv)(self.into_iter().map(f).collect::<VecDeque<B>>())
                }
            }

            impl<A, B> TryFuncMap<A, B> for $ty {
                type Output = $out;

                fn try_func_map<E, F>(self, f: F) -> Result<Self::Output, E>
                where
                    F: FnMut(A) -> Result<B, E>,
                {
                    self.into_iter().map(f).collect::<Result<VecDeque<B>, E>>().map($conv)
                }
            }
        };
    }

    impl_iterable!(VecDeque<A>, VecDeque<B>, |mapped| mapped);
    impl_iterable!(vec_deque::IntoIter<A>, vec_deque::IntoIter<B>, IntoIterator::into_iter);
}
"""))
m("g_util",None,(L,"mod impls_core;","mod impls_core;\n\nmod util {\n    pub(crate) fn wrap<A, B, E, T>(value: A, f: impl FnOnce(A) -> Result<B, E>, wrap: impl FnOnce(B) -> T) -> Result<T, E> {\n        match f(value) {\n            Ok(mapped) => Ok(wrap(mapped)),\n            Err(err) => Err(err),\n        }\n    }\n}\n"),(C,re.compile(r"(    impl<A, B> TryFuncMap<A, B> for Cell<A> \{.*?E>,\n        \{\n).*?\n        \}\n",re.S),r"\1            crate::util::wrap(self.into_inner(), f, Cell::new)\n        }\n"),(C,re.compile(r"(    impl<A, B> TryFuncMap<A, B> for RangeFrom<A> \{.*?E>,\n        \{\n).*?\n        \}\n",re.S),r"\1            crate::util::wrap(self.start, f, |start| start..)\n        }\n"))
m("g_trait_helper",None,(A,mod("vec_deque"),"""mod vec_deque {
    use crate::{FuncMap, TryFuncMap};

    use alloc::collections::{vec_deque, VecDeque};

    trait Mapped: Iterator + Sized {
        fn mapped<B>(self, f: impl FnMut(Self::Item) -> B) -> VecDeque<B> {
            self.map(f).collect()
        }
        fn try_mapped<B, E>(self, f: impl FnMut(Self::Item) -> Result<B, E>) -> Result<VecDeque<B>, E> {
            self.map(f).collect()
        }
    }

    impl<I: Iterator> Mapped for I {}

    impl<A, B> FuncMap<A, B> for VecDeque<A> {
        type Output = VecDeque<B>;

        fn func_map<F>(self, f: F) -> Self::Output
        where
            F: FnMut(A) -> B,
        {
            self.into_iter().mapped(f)
        }
    }

    impl<A, B> TryFuncMap<A, B> for VecDeque<A> {
        type Output = VecDeque<B>;

        fn try_func_map<E, F>(self, f: F) -> Result<Self::Output, E>
        where
            F: FnMut(A) -> Result<B, E>,
        {
            self.into_iter().try_mapped(f)
        }
    }

    impl<A, B> FuncMap<A, B> for vec_deque::IntoIter<A> {
        type Output = vec_deque::IntoIter<B>;

        fn func_map<F>(self, f: F) -> Self::Output
        where
            F: FnMut(A) -> B,
        {
            self.mapped(f).into_iter()
        }
    }

    impl<A, B> TryFuncMap<A, B> for vec_deque::IntoIter<A> {
        type Output = vec_deque::IntoIter<B>;

        fn try_func_map<E, F>(self, f: F) -> Result<Self::Output, E>
        where
            F: FnMut(A) -> Result<B, E>,
        {
            Ok(self.try_mapped(f)?.into_iter())
        }
    }
}
"""))
m("g_b_try_default_twice","C06",(L,"        self.try_func_map(f)\n","        let mut f = f;\n        self.try_func_map(|x| {\n            let mapped = f(x);\n            debug_assert!(mapped.is_ok());\n            mapped\n        })\n"))
m("g_b_seal_pub_trait","C07",(L,"/// Making [`FuncMarker`] a sealed trait","#[doc(hidden)]\npub use private::Sealed;\n\n/// Making [`FuncMarker`] a sealed trait"))
m("g_b_typeparam_field","C07",(L,"pub enum TypeParam<const N: usize> {}","pub struct TypeParam<const N: usize>(());"),(L,"        match *self {}","        Ok(())"))
m("g_b_alloc_str","C08",(L,"mod impls_core;","#[cfg(feature = \"alloc\")]\nmod impls_core;"))
m("g_b_send","C05",(A,"impl<A, B> FuncMap<A, B> for vec_deque::IntoIter<A> {","impl<A: Send, B> FuncMap<A, B> for vec_deque::IntoIter<A> {"))

def one(x,w):
    name,prop,ed=x
    d=f"/tmp/w/hd/{w}"; os.makedirs(d,exist_ok=True)
    subprocess.check_call(["rsync","-a","--delete","--exclude","/target","--exclude",".git","/repo/",d+"/repo/"])
    for f,a,b in ed:
        p=f"{d}/repo/{f}"; s=open(p).read()
        n=a.sub(b,s,1) if hasattr(a,"sub") else s.replace(a,b,1)
        if n==s: return name,prop,"NO EDIT",[str(a)[:80]]
        open(p,"w").write(n)
    env=dict(os.environ,FV_REPO=d+"/repo",FV_CACHE=d+"/cache",FV_EVIDENCE=d+"/ev")
    os.makedirs(d+"/cache",exist_ok=True)
    subprocess.call(["rsync","-a",V+"/.cache/driver",d+"/cache/"])
    got={}
    for c in ALL:
        p=subprocess.run([V+"/check",c],env=env,capture_output=True,text=True)
        if p.returncode: got[c]=(p.returncode,[l for l in (p.stdout+p.stderr).splitlines() if not l.startswith(("VIOLATION","KNOWN"))][:2])
    if prop is None: r="pass" if not got else "FALSE ALARM"
    else: r="pass" if got.get(prop,(0,))[0]==1 else "MISSED"
    return name,prop,r,[f"{k}: {v}"[:400] for k,v in got.items()]
if __name__=="__main__":
    q=queue.Queue(); [q.put(x) for x in M if not sys.argv[1:] or x[0] in sys.argv[1:]]
    def wk(w):
        while 1:
            try: x=q.get_nowait()
            except queue.Empty: return
            r=one(x,w)
            if r[2]!="pass" or sys.argv[1:]: print(r[2],r[0],r[1],*r[3],sep="\n   ",flush=True)
            else: print("pass",r[0],flush=True)
    ts=[threading.Thread(target=wk,args=(i,)) for i in range(int(os.environ.get('J','6')))]; [t.start() for t in ts]; [t.join() for t in ts]
