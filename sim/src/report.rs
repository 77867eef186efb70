//! Findings of one run.

use std::collections::BTreeMap;

#[derive(Clone, Debug)]
pub struct Viol {
    /// Properties this breaks; "*" means whichever is being checked.
    pub props: Vec<&'static str>,
    pub class: String,
    pub msg: String,
    pub t: u64,
}

#[derive(Default)]
pub struct Rep {
    pub v: Vec<Viol>,
    /// Obligations checked, per property.
    pub ob: BTreeMap<&'static str, u64>,
}

impl Rep {
    pub fn bad(&mut self, props: &[&'static str], class: impl Into<String>, t: u64, msg: impl Into<String>) {
        let mut p: Vec<_> = props.to_vec();
        p.sort();
        p.dedup();
        self.v.push(Viol { props: p, class: class.into(), msg: msg.into(), t });
    }
    pub fn ob(&mut self, p: &'static str) {
        *self.ob.entry(p).or_insert(0) += 1;
    }
    pub fn for_prop(&self, p: &str) -> Option<&Viol> {
        self.v.iter().filter(|v| v.props.iter().any(|x| *x == p || *x == "*")).min_by_key(|v| v.t)
    }
}
