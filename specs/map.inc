verus! {
broadcast use vstd::std_specs::hash::group_hash_axioms;
// ---- std::collections::HashMap, as far as vstd leaves it out
/// `m.entry(k).or_insert(v)`
#[verifier::external_body]
pub fn map_or_insert<V>(m: &mut HashMap<usize, V>, k: usize, v: V) -> (r: &mut V)
    ensures *r == if old(m)@.contains_key(k) { old(m)@[k] } else { v }, final(m)@ == old(m)@.insert(k, *final(r)),
{ m.entry(k).or_insert(v) }
/// The value an iteration over the map yields for a key.
#[verifier::external_body]
pub fn map_get_mut<V>(m: &mut HashMap<usize, V>, k: usize) -> (r: &mut V)
    requires old(m)@.contains_key(k),
    ensures *r == old(m)@[k], final(m)@ == old(m)@.insert(k, *final(r)),
{ m.get_mut(&k).unwrap() }
/// The keys in the order an iteration visits them: any order, each once.
#[verifier::external_body]
pub fn map_keys<V>(m: &HashMap<usize, V>) -> (r: Vec<usize>)
    ensures r@.no_duplicates(), forall|k: usize| #![trigger r@.contains(k)] r@.contains(k) <==> m@.contains_key(k),
{ m.keys().cloned().collect() }
pub proof fn lemma_first(s: Set<usize>, k: nat)
    requires forall|x: usize| #![trigger s.contains(x)] s.contains(x) <==> x < k, k <= usize::MAX,
    ensures s.len() == k,
    decreases k,
{
    if k == 0 { assert(s =~= Set::empty()); } else {
        let t = s.remove((k - 1) as usize);
        assert forall|x: usize| #![trigger t.contains(x)] t.contains(x) <==> x < k - 1 by {}
        lemma_first(t, (k - 1) as nat);
    }
}
} // verus!
