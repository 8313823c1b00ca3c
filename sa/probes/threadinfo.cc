// names every deferred-reclamation and pool operation, so that all are compiled
#include "kvthread.hh"
struct probe_callback : public mrcu_callback { void operator()(threadinfo&) override {} };
void probe(threadinfo& ti, void* p, size_t sz, probe_callback* cb) {
    ti.rcu_start();
    p = ti.pool_allocate(sz, memtag_masstree_leaf);
    ti.pool_deallocate(p, sz, memtag_masstree_leaf);
    ti.pool_deallocate_rcu(p, sz, memtag_masstree_leaf);
    p = ti.allocate(sz, memtag_value);
    ti.deallocate(p, sz, memtag_value);
    ti.deallocate_rcu(p, sz, memtag_value);
    ti.rcu_register(cb);
    ti.rcu_quiesce();
    ti.rcu_stop();
    (void) threadinfo::min_active_epoch();
}
