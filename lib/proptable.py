BM = 'include/indexes/btree/map.h'
AM = 'include/indexes/art/map.h'
BT = 'include/indexes/btree/concurrent_map.h'
ART = 'include/indexes/art/concurrent_map.h'
HT = 'include/indexes/hashtable/concurrent_map.h'
EM = 'include/indexes/utils/EpochManager.h'
TS = 'path-sensitive typestate dataflow over the LLVM IR of the source (ixa), run to a fixpoint over every path of every public operation'


def mech(*a):
    return [{'name': n, 'where': w} for n, w in a]


def Q(over, text):
    return {'over': over, 'text': text}


PROPERTIES = [
 dict(id='C01', title='Every operation leaves no latch behind and never misuses one',
  statement='Whatever the other threads do, an operation of a concurrent index returns holding none of the latches it took, releases only latches it holds, and never waits for a latch it already holds. So after any history every element of the index can still be reached and modified by a later operation.',
  quantifier=Q(['schedules', 'inputs', 'histories'], 'every path of every operation of the three concurrent indexes, including the retry, stale-snapshot, split, merge and migration paths'),
  why_tests_cant='No stable test runs a concurrent index at all, and the paths on which latches are forgotten (a snapshot gone stale between two latches, a fallback to latching after failed optimistic reads) need particular interleavings.',
  anchors={'files': [BT, ART, HT], 'mechanism': mech(('hand-over-hand latching with restart', BT + ': traverse, lock_node_or_restart, unlock_node_or_restart'), ('scoped locks', ART + ': node_snapshot_t::lock, lock_root, expand_node'), ('bucket latches', HT + ': HashTable::insert, migrate_table')),
           'state': [{'name': 'held latches', 'meaning': 'latches acquired and not yet released by the running operation', 'where': 'every sync_prim mutex of a node, bucket or map'}],
           'observe_at': ['return of Insert, Upsert, Update, Search, Delete, reserve'], 'hook_needed': None},
  technique=TS + ': held-latch typestate', level_note='all paths of all operations; infeasible paths are pruned with linear/bit facts; joins over-approximate'),
 dict(id='C02', title='Operations take latches in one order, so they cannot deadlock',
  statement='No set of concurrent operations on one index can wait for each other for ever: blocking latches are always taken in the same order, between the kinds of latches and along the tree.',
  quantifier=Q(['schedules', 'histories'], 'every pair of blocking latch acquisitions on every path of every operation of an index'),
  why_tests_cant='A deadlock needs two particular operations to reach two particular latches at the same time; the stable tests are single-threaded.',
  anchors={'files': [BT, ART, HT], 'mechanism': mech(('parent before child', BT + ': split_node, trim_node, merge_node, replace_subtree_on_version_match'), ('child before parent before root', ART + ': shrink_node, remove_leaf, add_to_parent, expand_node'), ('migration mutex before bucket latches', HT + ': migrate_table, try_migrate_table, wait_for_migration_to_end')),
           'observe_at': ['blocking latch acquisitions'], 'hook_needed': None},
  technique=TS + ': acquired-while-holding relation, cycle and inversion check', level_note='edges collected over all paths; node latches are related by the link through which one was reached from the other'),
 dict(id='C03', title='Shared memory changes only under the latch that guards it',
  statement='While other threads use a concurrent index, an operation changes a node, a bucket, a link or the root of that index only while it holds the latch that guards it, and a new object becomes reachable only after it is completely built. So no operation can lose another one\'s change or see a half-built object.',
  quantifier=Q(['schedules', 'inputs', 'histories'], 'every store to memory shared between operations, on every path of every operation'),
  why_tests_cant='Two unsynchronised writers have to meet at the same node within a few instructions, and on x86 a missing release ordering never shows in a test.',
  anchors={'files': [BT, ART, HT], 'mechanism': mech(('node latches', BT + ': atomic_node_update, replace_subtree_on_version_match, store_root'), ('snapshot locks', ART + ': node_snapshot_t::lock, lock_root; store_rs/xchg_rs links'), ('bucket latches', HT + ': HashTable::insert, remove, do_migrate')),
           'observe_at': ['every store to shared memory'], 'hook_needed': None},
  technique=TS + ': store/held-latch matching and publication ordering', level_note='every store that may reach shared memory is an obligation; private (not yet linked) objects are recognised by escape tracking'),
 dict(id='C04', title='Versions tell: every change of a node shows in its version',
  statement='Whoever changes a node that other threads can read makes its version move on before the latch is released, never resets it, never revives a deleted node, and (in the B+Tree) changes its contents only while the version carries the locked mark. So a reader or a later writer that finds the version it saw before knows that nothing changed in between.',
  quantifier=Q(['schedules', 'inputs', 'histories'], 'every change of a reachable node or of the root link and every version store, on every path of every operation of the B+Tree and the radix tree'),
  why_tests_cant='A forgotten or misplaced version change only matters to a thread that read the node in that very window; the result of the changing operation is right either way.',
  anchors={'files': [BT, ART], 'mechanism': mech(('locked window and version increment', BT + ': atomic_node_update, store_root, setState, nodestate_t'), ('version stores', ART + ': node_t::add, update, remove, mark_as_deleted')),
           'state': [{'name': 'version', 'meaning': 'counter with locked/deleted marks validated by optimistic readers', 'where': 'node_t::state, m_root_state, node_t::version'}],
           'observe_at': ['stores to node contents', 'stores to version words', 'latch releases'], 'hook_needed': None},
  technique=TS + ': version-window typestate', level_note='bit-level reasoning on the version word; every content store of a shared node is an obligation'),
 dict(id='C05', title='Unlatched reads are validated before they decide anything',
  statement='What an operation reads from a shared node without its latch decides a result or a change only after the operation found the version of that node unchanged, and a node found earlier is changed only after checking under its latch that it is still the same. So every result and every change is based on one consistent state of each node.',
  quantifier=Q(['schedules', 'inputs', 'histories'], 'every unlatched read, every change of a reachable node and every return, on every path of every operation'),
  why_tests_cant='A missing check matters only when another thread changes the same node between the read and its use; the stable tests are single-threaded.',
  anchors={'files': [BT, ART, HT], 'mechanism': mech(('snapshot validation', BT + ': is_snapshot_stale, unlock_node_or_restart, traverse, search'), ('re-check under the latch', ART + ': node_snapshot_t::lock, lock_root'), ('values', HT + ': HashBucket::exchange, Search, Delete')),
           'observe_at': ['return of every operation', 'changes of shared nodes'], 'hook_needed': None},
  technique=TS + ': read-validate-use typestate', level_note='the unlatched value reads of the radix tree and the hash map are known findings'),
 dict(id='C06', title='Shared nodes are only touched inside the epoch section they were found in',
  statement='An operation reads, writes or latches memory that it found through a shared link only between entering and leaving an epoch section, never through a pointer kept from an earlier section, and every section it enters it leaves. So memory is never reclaimed under a running operation, and reclamation never stops.',
  quantifier=Q(['schedules', 'histories', 'inputs'], 'every access to shared memory and every return on every path of every operation'),
  why_tests_cant='A read outside the section only fails if another thread reclaims that very node in between; a section left open only shows as memory that is never given back.',
  anchors={'files': [BT, ART, HT, EM], 'mechanism': mech(('epoch guards', BT + ': EpochGuard; ' + ART + ': traverser_t::guard; ' + HT + ': EpochGuard')),
           'observe_at': ['every access to memory reached through a shared link', 'return of every operation'], 'hook_needed': None},
  technique=TS + ': epoch-section typestate', level_note='covers every operation, including size(), load_factor() and reserve()'),
 dict(id='C07', title='Every node is owned: never leaked, never freed twice or in use',
  statement='Each node, leaf or table an operation allocates ends up linked into the index, handed over to reclamation or freed, on failed and retried attempts too. Nothing is freed twice, freed while its latch is held, freed directly while another operation may be using it, or used after it was freed.',
  quantifier=Q(['schedules', 'histories', 'inputs'], 'every allocation, deallocation and use on every path of every operation and of the destructors'),
  why_tests_cant='The losing paths (another thread changed the parent between building and linking the node) need an interleaving, and a leak or a use after free does not change the result of the operation.',
  anchors={'files': [BT, ART, HT], 'mechanism': mech(('failed splits', BT + ': handle_overflow, split_node'), ('failed links', ART + ': insert_leaf, expand_node, shrink_node'), ('failed migration attempts', HT + ': migrate_table, try_migrate_table')),
           'observe_at': ['return of every operation', 'every deallocation'], 'hook_needed': None},
  technique=TS + ': allocation ownership typestate', level_note='objects are followed through local variables, members, containers and private parents'),
 dict(id='C08', title='A removed node is retired once, after it is unlinked and marked dead',
  statement='A node leaves a concurrent index in one order: its link is replaced, it is marked deleted under its latch, and only then is it handed to reclamation, exactly once. So an operation that still holds a pointer to it notices, and its memory is given back once no operation can still see it.',
  quantifier=Q(['schedules', 'histories'], 'every node replaced, merged, shrunk, expanded or removed on every path of every operation'),
  why_tests_cant='The result of the operation is the same either way; only an operation waiting for the latch of the removed node at that moment would modify or read a node that is no longer part of the index.',
  anchors={'files': [BT, ART, HT], 'mechanism': mech(('mark and retire', BT + ': replace_subtree_on_version_match, merge_node; ' + ART + ': expand_node, shrink_node, remove_leaf'), ('table retirement', HT + ': migrate_table')),
           'observe_at': ['retire_in_new_epoch, retire_in_current_epoch, switch_epoch', 'deleted marks'], 'hook_needed': None},
  technique=TS + ': unlink/mark/retire typestate', level_note='tree nodes need the deleted mark; hash tables are frozen by their migrated flags instead'),
 dict(id='C09', title='Nothing is reclaimed while a section that may see it is open',
  statement='An object handed to the epoch manager is given back only after every section that was open when it was handed over has ended, and is given back exactly once. Entering a section is never torn by a concurrent reclamation, and objects whose sections have all ended do not stay on the list for ever.',
  quantifier=Q(['schedules', 'histories'], 'every path of every operation of the epoch manager: entering, leaving and switching sections, retiring and reclaiming'),
  why_tests_cant='A section has to begin or move between two particular reads of the reclaiming thread; the stable tests never run the epoch manager with two threads.',
  anchors={'files': [EM], 'mechanism': mech(('slots and global epoch', EM + ': enter_epoch, exit_epoch, switch_epoch, now'), ('oldest open section', EM + ': get_min_used_epoch'), ('retire lists', EM + ': retire_in_new_epoch, retire_in_current_epoch, do_reclaim, reclaim_all')),
           'state': [{'name': 'slot', 'meaning': 'epoch of the section a thread has open, or the quiescent mark', 'where': 'per-thread atomic word'}],
           'observe_at': ['the reclaimer callback', 'stores to the slots and the global epoch'], 'hook_needed': None},
  technique=TS + ': epoch protocol typestate with an inductive bound over all slots', level_note='that the bound of a reclamation is no larger than any slot is proved by an inductive fact over the scanning loop; memory ordering of entering is a required fence or seq_cst operation'),
 dict(id='C10', title='The element count changes exactly when an operation says so',
  statement='The number of elements a concurrent index reports grows by one for exactly those operations that return that they added an element and shrinks by one for exactly those that return that they removed one. Retried, failed and read-only operations never change it.',
  quantifier=Q(['inputs', 'schedules', 'histories'], 'every path from the start to the return of every operation of the three concurrent indexes'),
  why_tests_cant='The miscounting paths are retries after a lost race, upserts of present keys and deletes of absent ones; the stable tests never look at the size of a concurrent index.',
  anchors={'files': [BT, ART, HT], 'mechanism': mech(('element counters', BT + ': BTREE_UPDATE_STAT(element, ...); ' + ART + ': num_inserts, num_deletes; ' + HT + ': increment_num_values, increment_num_tomb_stones')),
           'observe_at': ['size()', 'return value of Insert, Upsert, Delete'], 'hook_needed': None},
  technique=TS + ': counter/result agreement', level_note='per-path counter delta compared with the returned result'),
 dict(id='C18', title='Growing the hash table loses no concurrent change',
  statement='While a hash map replaces its table by a larger one, other operations may run: a change they report as done is in the new table too. No operation changes a table whose entries may already have been copied, and no operation is blocked for ever by a replacement that has ended.',
  quantifier=Q(['schedules', 'histories'], 'every change of a bucket or chain and every step of a table replacement, on every path of every operation'),
  why_tests_cant='The change has to be made between the copy of its bucket and the replacement of the table; no stable test uses the hash map, and a stress test meets that window rarely.',
  anchors={'files': [HT], 'mechanism': mech(('migration check under the bucket latch', HT + ': is_migrated_from, Insert, Upsert, Update, Delete'), ('copying', HT + ': migrate_table, try_migrate_table')),
           'state': [{'name': 'migration flag', 'meaning': 'entries of the current table may already have been copied', 'where': 'is_migration_in_progress'}],
           'observe_at': ['changes of buckets and links', 'replacement of the table pointer'], 'hook_needed': None},
  technique=TS + ': migration protocol typestate', level_note='checks-under-latch are tied to the latch that guards the changed bucket'),
 dict(id='C11', title='Single-threaded maps own each node once: no leak, no use after free',
  statement='A single-threaded map gives back every node it replaces, empties or removes, exactly once and only when nothing in the map leads to it any more. What an operation allocates is part of the map when it returns or has been given back, and no operation touches a node it has given back.',
  quantifier=Q(['inputs', 'histories'], 'every path of every operation and of the destructor of the two single-threaded maps'),
  why_tests_cant='A leaked, twice freed or still linked node changes no result of the stable tests, and the radix-tree map is not covered by them at all.',
  anchors={'files': [BM, AM], 'mechanism': mech(('replace and free', BM + ': split_node, merge_node, trim_node'), ('expand, shrink, remove', AM + ': add_to_parent, shrink_node, erase')),
           'observe_at': ['allocations, frees and link stores'], 'hook_needed': None},
  technique=TS + ': node ownership typestate', level_note='recursion is followed two levels deep, then taken as opaque'),
 dict(id='C12', title='The size of a single-threaded map changes exactly as operations report',
  statement='The size a single-threaded map reports goes up by one for exactly those operations that add an element, down by one for exactly those that report having removed one, and never otherwise.',
  quantifier=Q(['inputs', 'histories'], 'every path of every operation of the two single-threaded maps'),
  why_tests_cant='The stable tests compare the size on a few workloads of one of the maps only; rarely taken paths (updates, failed removals, overflow) are not sampled.',
  anchors={'files': [BM, AM], 'mechanism': mech(('counting', BM + ': operator[], erase'), ('counting', AM + ': Insert, Upsert, Update, Delete')),
           'observe_at': ['return of each operation', 'size()'], 'hook_needed': None},
  technique=TS + ': net change of the size against the returned result', level_note='all paths of all operations'),
 dict(id='C13', title='Each index behaves like a sorted or associative container',
  statement='Looked at one at a time, the operations of every index return exactly what the same operations on a reference container would return, whatever was inserted and removed before.',
  quantifier=Q(['inputs', 'histories'], 'all sequences of operations with all keys and values'),
  why_tests_cant='The tests compare a few workloads.',
  anchors={'files': [BT, ART, HT, BM, AM], 'mechanism': [], 'observe_at': ['results of the operations'], 'hook_needed': None},
  na='functional equivalence depends on key values, positions in sorted arrays, prefix lengths and hash values of unbounded histories; no sound static argument in reach relates them, only structural necessary conditions (C03-C08, C11) are decided'),
 dict(id='C14', title='Concurrent operations are linearizable',
  statement='Every concurrent history of an index is equivalent to one in which each operation takes effect at one instant between its call and its return.',
  quantifier=Q(['schedules', 'histories'], 'all concurrent histories'),
  why_tests_cant='Tests sample schedules and compare only final states.',
  anchors={'files': [BT, ART, HT], 'mechanism': [], 'observe_at': ['histories of calls and returns'], 'hook_needed': None},
  na='needs the functional meaning of node contents (see C13) on top of the protocol; the protocol part (latches, versions, validation, publication, epochs, migration) is what C03-C09 and C18 decide'),
 dict(id='C15', title='Iterators visit every element once, in key order',
  statement='Walking an index forwards or backwards visits every element that stays in it once, in the order of the keys.',
  quantifier=Q(['inputs', 'schedules', 'histories'], 'all walks of all index states'),
  why_tests_cant='Tests walk a few index states.',
  anchors={'files': [BT, BM], 'mechanism': [], 'observe_at': ['sequence of visited elements'], 'hook_needed': None},
  na='order and completeness are statements about key values and separator keys at run time, which no static argument in reach bounds; what iterators may touch, hold and leak is decided (C01, C05, C06)'),
 dict(id='C16', title='Operations finish and nodes stay reasonably filled',
  statement='Every operation that is not starved by others ends, and splitting, merging, expanding and shrinking keep the nodes within their fill limits.',
  quantifier=Q(['schedules', 'inputs', 'histories'], 'all operations in all index states'),
  why_tests_cant='Retry loops end in every sampled run.',
  anchors={'files': [BT, ART, HT], 'mechanism': [], 'observe_at': ['return of operations', 'number of entries of nodes'], 'hook_needed': None},
  na='needs ranking arguments over retries caused by other threads and arithmetic on run-time fill counts; only the absence of deadlock is decided (C02)'),
 dict(id='C17', title='Benchmark drivers generate the workloads they are asked for',
  statement='The key choosers and operation mixes of the benchmark programs follow the distributions and proportions given to them.',
  quantifier=Q(['configurations', 'inputs'], 'all workload configurations'),
  why_tests_cant='The benchmark programs have no tests.',
  anchors={'files': ['src/benchmark/utils/zipfian_generator.h', 'src/benchmark/utils/discrete_generator.h', 'src/benchmark/ycsb/core/core_workload.cpp'], 'mechanism': [], 'observe_at': ['generated operations'], 'hook_needed': None},
  na='a statement about frequencies of random outcomes and floating-point numerics, which a static rule over the source cannot decide'),
]
