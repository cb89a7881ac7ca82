//! Syntactic panic reachability: the fallback of C09 where the interpreter cannot decide a body,
//! and the rule of C20.
use rustc_middle::mir::{AssertKind, BinOp, Body, TerminatorKind};
use rustc_middle::ty::{TyCtxt, TyKind};
use rustc_span::def_id::{DefId, LocalDefId};
use rustc_span::Span;
use std::collections::{HashMap, HashSet};

/// functions of core, alloc and std that panic for some of their arguments
pub fn may_panic(path: &str) -> bool {
    const TAILS: &[&str] = &[
        "Option::unwrap", "Option::expect", "Result::unwrap", "Result::expect", "Result::unwrap_err", "Result::expect_err",
        "Index::index", "IndexMut::index_mut", "RefCell::borrow", "RefCell::borrow_mut", "RefCell::replace", "RefCell::swap",
        "RefCell::take", "Vec::remove", "Vec::insert", "Vec::swap_remove", "Vec::split_off", "Vec::drain", "Vec::splice",
        "VecDeque::insert", "VecDeque::swap", "VecDeque::split_off", "VecDeque::drain", "LinkedList::split_off",
        "slice::swap", "slice::split_at", "slice::split_at_mut", "slice::copy_from_slice", "slice::clone_from_slice",
        "slice::chunks", "slice::chunks_exact", "slice::windows", "slice::rotate_left", "slice::rotate_right",
        "slice::copy_within", "slice::select_nth_unstable", "Iterator::step_by", "String::remove", "String::insert", "String::split_off", "String::drain",
        "str::split_at", "Duration::from_secs_f64",
    ];
    let (p, l) = tail(path);
    TAILS.iter().any(|t| {
        let (a, b) = t.split_once("::").unwrap();
        l == b && (p == a || (a == "slice" && path.contains("slice::")) || (a == "str" && path.contains("str::")))
    })
}

/// the last two segments of a path, generic arguments removed
pub fn tail(path: &str) -> (String, String) {
    let mut depth = 0usize;
    let mut plain = String::new();
    let mut prev = ' ';
    for c in path.chars() {
        match c {
            '<' => depth += 1,
            '>' if prev != '-' => depth = depth.saturating_sub(1),
            c if depth == 0 => plain.push(c),
            _ => {}
        }
        prev = c;
    }
    let mut it = plain.rsplit("::").filter(|x| !x.is_empty());
    let l = it.next().unwrap_or("").to_string();
    let p = it.next().unwrap_or("").to_string();
    (p, l)
}

pub fn scan<'tcx>(tcx: TyCtxt<'tcx>, bodies: &HashMap<LocalDefId, &'tcx Body<'tcx>>, root: DefId) -> Option<(String, Span)> {
    let mut todo = vec![root];
    let mut seen = HashSet::new();
    while let Some(d) = todo.pop() {
        let Some(b) = d.as_local().and_then(|l| bodies.get(&l)) else { continue };
        if !seen.insert(d) {
            continue;
        }
        for bb in b.basic_blocks.iter() {
            if bb.is_cleanup {
                continue;
            }
            for st in &bb.statements {
                if let rustc_middle::mir::StatementKind::Assign(x) = &st.kind {
                    if let rustc_middle::mir::Rvalue::Aggregate(k, _) = &x.1 {
                        if let rustc_middle::mir::AggregateKind::Closure(c, _) = **k {
                            todo.push(c);
                        }
                    }
                }
            }
            let t = bb.terminator();
            match &t.kind {
                TerminatorKind::Assert { msg, .. } => match &**msg {
                    // a counter cannot overflow before memory is exhausted
                    AssertKind::Overflow(BinOp::Add, _, r) if is_one(r) => {}
                    m => return Some((format!("{m:?}"), t.source_info.span)),
                },
                TerminatorKind::Call { func, target, .. } => {
                    let ty = func.ty(*b, tcx);
                    if let TyKind::FnDef(f, _) = ty.kind() {
                        let path = tcx.def_path_str(*f);
                        if target.is_none() || may_panic(&path) {
                            return Some((format!("calls {path}"), t.source_info.span));
                        }
                        todo.push(*f);
                    }
                }
                _ => {}
            }
        }
    }
    None
}

fn is_one(o: &rustc_middle::mir::Operand<'_>) -> bool {
    o.constant().is_some_and(|c| format!("{}", c.const_).starts_with("1_") || format!("{}", c.const_).contains("const 1"))
}
