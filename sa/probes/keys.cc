// names every operation on keys and key slices, so that all are compiled
#include "masstree_key.hh"
#include "ksearch.hh"
template struct string_slice<uint64_t>;
template class Masstree::key<uint64_t>;
struct probe_node {
    typedef kpermuter<15> permuter_type;
    permuter_type permutation() const;
    int compare_key(uint64_t ka, int p) const;
};
struct probe_plain_node {
    int size() const;
    int compare_key(uint64_t ka, int p) const;
};
int probe_upper(uint64_t ka, const probe_node& n, const probe_plain_node& m) {
    return key_bound_binary::upper(ka, n) + key_bound_linear::upper(ka, n)
        + key_bound_binary::upper(ka, m) + key_bound_linear::upper(ka, m);
}
int probe_lower(uint64_t ka, const probe_node& n, const probe_plain_node& m) {
    return key_bound_binary::lower(ka, n).i + key_bound_linear::lower(ka, n).i
        + key_bound_binary::lower(ka, m).i + key_bound_linear::lower(ka, m).i;
}
