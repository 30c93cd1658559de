//! Linearizability of one key's history against a register with conditional fill.

use std::collections::HashSet;

#[derive(Clone, Debug, PartialEq)]
pub enum Kind {
    /// observed content; `lenient` = a fault hit this very operation, so "nothing" may be said
    Read { got: Option<u32>, lenient: bool },
    Set(u32),
    Remove,
    /// got: value obtained; ran: the producer ran (with value `own`)
    Fill { got: u32, own: u32, ran: bool, lenient: bool },
}
#[derive(Clone, Debug)]
pub struct Op {
    pub inv: u64,
    pub ret: u64,
    /// the operation may also not have taken effect (its process was killed in it)
    pub maybe: bool,
    pub kind: Kind,
}

pub enum Verdict {
    Ok(HashSet<Option<u32>>),
    Bad,
    TooBig,
}

/// strict: a fill whose producer ran must have found the key absent.
/// Ok carries the possible final states.
pub fn check(ops: &[Op], init: &[Option<u32>], strict: bool) -> Verdict {
    if ops.len() > 100 {
        return Verdict::TooBig;
    }
    let mut ops: Vec<&Op> = ops.iter().collect();
    ops.sort_by_key(|o| o.inv);
    let mut seen: HashSet<(u128, Option<u32>)> = HashSet::new();
    let mut finals = HashSet::new();
    let full: u128 = if ops.is_empty() { 0 } else { (!0u128) >> (128 - ops.len()) };
    let mut stack: Vec<(u128, Option<u32>)> = init.iter().map(|s| (0u128, *s)).collect();
    while let Some((mask, st)) = stack.pop() {
        if !seen.insert((mask, st)) {
            continue;
        }
        if seen.len() > 400_000 {
            return Verdict::TooBig;
        }
        if mask == full {
            finals.insert(st);
            continue;
        }
        // an operation can be next if no other pending operation returned before it began
        let min_ret = ops
            .iter()
            .enumerate()
            .filter(|(i, _)| mask >> i & 1 == 0)
            .map(|(_, o)| o.ret)
            .min()
            .unwrap();
        for (i, o) in ops.iter().enumerate() {
            if mask >> i & 1 == 1 {
                continue;
            }
            if o.inv > min_ret {
                break;
            }
            let m2 = mask | 1 << i;
            if o.maybe {
                stack.push((m2, st));
            }
            let next = match &o.kind {
                Kind::Read { got, lenient } => {
                    if *got == st || (*lenient && got.is_none()) {
                        Some(st)
                    } else {
                        None
                    }
                }
                Kind::Set(v) => Some(Some(*v)),
                Kind::Remove => Some(None),
                Kind::Fill { got, own, ran, lenient } => {
                    if *ran {
                        if got == own && (st.is_none() || !strict || *lenient) {
                            Some(Some(*own))
                        } else {
                            None
                        }
                    } else if st == Some(*got) {
                        Some(st)
                    } else {
                        None
                    }
                }
            };
            if let Some(n) = next {
                stack.push((m2, n));
            }
        }
    }
    if finals.is_empty() {
        Verdict::Bad
    } else {
        Verdict::Ok(finals)
    }
}
