// Included into cola's `verif` module when it is built with
// `--cfg cola_verif` and COLA_VERIF_HOOKS set to this file.

/// A version vector: its owner, the owner's count, everybody else's.
pub type Vector = (u64, usize, Vec<(u64, usize)>);

fn vm(v: &Vector) -> VersionMap {
    let mut m = VersionMap::new(v.0, v.1);
    for &(id, n) in &v.2 {
        m.insert(id, n);
    }
    m
}

pub fn version_cmp(a: &Vector, b: &Vector) -> Option<core::cmp::Ordering> {
    vm(a).partial_cmp(&vm(b))
}

/// The counts of `ids` in `a` after forking it to `new_id`.
pub fn version_fork(a: &Vector, new_id: u64, ids: &[u64]) -> Vec<usize> {
    let f = vm(a).fork(new_id, 0);
    ids.iter().map(|&id| f.get(id)).collect()
}

pub fn version_get(a: &Vector, ids: &[u64]) -> Vec<usize> {
    let m = vm(a);
    ids.iter().map(|&id| m.get(id)).collect()
}
