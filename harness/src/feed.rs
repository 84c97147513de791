//! Input iterators: the same items handed over in many ways.

use std::{cell::Cell, rc::Rc};

use crate::{engine::Src, val::Val};

/// How an input iterator reports its remaining length. All are truthful.
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Hint {
    Exact,
    /// `(0, None)`
    Unknown,
    /// `(remaining.saturating_sub(a), Some(remaining + b))`
    Loose(usize, usize),
    /// `(remaining.saturating_sub(a), Some(usize::MAX - b))`
    Huge(usize, usize),
    /// `(remaining, None)`
    Lower,
}

/// What an input iterator does.
#[derive(Clone, Debug)]
pub struct Plan {
    pub hint: Hint,
    /// Items a non-fused iterator yields when polled after its end; each
    /// `None` is another end.
    pub after: Vec<Option<Val>>,
    /// Panics instead of yielding the item at this position.
    pub panic_at: Option<usize>,
    /// Hands over a concrete `vec::IntoIter` instead.
    pub vec: bool,
}

impl Plan {
    pub const PLAIN: Plan = Plan { hint: Hint::Exact, after: Vec::new(), panic_at: None, vec: true };
    pub const EXACT: Plan = Plan { hint: Hint::Exact, after: Vec::new(), panic_at: None, vec: false };
    /// Truthful, fused, never panicking.
    pub fn gen_tame(src: &mut Src) -> Plan {
        let vec = !src.chance(1, 2);
        let hint = gen_hint(src, false);
        Plan { hint, vec, ..Plan::EXACT }
    }
}

pub fn gen_hint(src: &mut Src, huge: bool) -> Hint {
    match src.weighted(&[3, 2, 2, 2, if huge { 3 } else { 0 }]) {
        0 => Hint::Exact,
        1 => Hint::Unknown,
        2 => Hint::Lower,
        3 => {
            let a = *src.pick(&[0, 1, 2, 7, 1000, usize::MAX]);
            let b = *src.pick(&[0, 1, 5, 64]);
            Hint::Loose(a, b)
        }
        _ => {
            let a = *src.pick(&[usize::MAX, 0, 1, 7]);
            let b = *src.pick(&[0, 1, 7, 8, 1 << 20, usize::MAX / 2, usize::MAX / 8, usize::MAX / 4, usize::MAX / 9 * 8]);
            Hint::Huge(a, b)
        }
    }
}

/// The iterator handed to the code under test.
pub struct Feed {
    items: std::vec::IntoIter<Val>,
    plan: Plan,
    at: usize,
    ended: bool,
    after: usize,
    /// Items yielded so far.
    pub produced: Rc<Cell<usize>>,
}

impl Feed {
    pub fn new(items: Vec<Val>, plan: &Plan) -> Self {
        Feed {
            items: items.into_iter(),
            plan: plan.clone(),
            at: 0,
            ended: false,
            after: 0,
            produced: Rc::default(),
        }
    }
    pub fn is_vec(&self) -> bool {
        self.plan.vec && self.plan.panic_at.is_none() && self.plan.after.is_empty()
    }
    pub fn into_items(self) -> Vec<Val> {
        self.items.collect()
    }
}

impl Feed {
    fn pull(&mut self) -> Option<Val> {
        if self.ended {
            let r = self.plan.after.get(self.after).cloned().flatten();
            self.after += 1;
            return r;
        }
        if self.plan.panic_at == Some(self.at) {
            // Resumable: what comes after a caught panic is more items.
            self.at += 1;
            panic!("input iterator panics");
        }
        match self.items.next() {
            Some(v) => {
                self.at += 1;
                self.produced.set(self.produced.get() + 1);
                Some(v)
            }
            None => {
                self.ended = true;
                None
            }
        }
    }
}

impl Iterator for Feed {
    type Item = Val;
    fn next(&mut self) -> Option<Val> {
        crate::refuse::paused(|| self.pull())
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        let n = if self.ended { 0 } else { self.items.len() };
        match self.plan.hint {
            Hint::Exact => (n, Some(n)),
            Hint::Unknown => (0, None),
            Hint::Lower => (n, None),
            Hint::Loose(a, b) => (n.saturating_sub(a), Some(n.saturating_add(b))),
            Hint::Huge(a, b) => (n.saturating_sub(a), Some((usize::MAX - b).max(n))),
        }
    }
}
