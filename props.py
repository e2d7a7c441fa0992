COMMON = [
    "clang 18 lowering (-O1 frontend, no optimisation passes but SROA) of the templates instantiated with an opaque key/value type represents every instantiation",
    "third-party pieces absent from the source tree (folly, gsl, sync_prim) behave as their declared interface in /verif/stubs",
    "path conditions are decided by the engine's own linear/bit-level fact base (no solver); joins over-approximate, so every real path is covered",
]
LIVE = ["a child link read from a latched node that is not deleted leads to a node that is not deleted; the root of a non-empty index stays non-null; the root state never carries the deleted mark",
        "enumeration fields hold one of their enumerators"]
BT = {'tu': 'btree_cm', 'cap': 24, 'cfg': 'enum-env'}
ART = {'tu': 'art_cm', 'cap': 100, 'cfg': 'nullable-links,fine-mem,root-mutex'}
HT = {'tu': 'ht_cm', 'cap': 24, 'cfg': 'nullable-links,root-mutex,no-dead-mark'}
BTM = {'tu': 'btree_map', 'cap': 24, 'cfg': 'nullable-links,enum-env,cow'}
ARTM = {'tu': 'art_map', 'cap': 100, 'cfg': 'nullable-links,fine-mem,node-per-key'}
SOLO = ['the operations of a single-threaded map are not run concurrently',
        'recursive operations are followed two levels deep, deeper levels are taken to behave like the ones followed',
        'a child that is to be replaced is present in its parent; only inner nodes are expanded or shrunk; a node just built has room for one more child']
BTIT = {'tu': 'btree_it', 'cap': 24, 'cfg': 'enum-env'}
ALL3 = (BT, ART, HT)
OPS = r'.*_(Insert|Upsert|Update|Search|Delete|reserve|size|load_factor|empty)'


def run(b, mon, **kw):
    return dict(b, mon=mon, **kw)


PROPS = {
 'C01': {
  'runs': [run(b, 'lock') for b in ALL3 + (BTIT,)],
  'rules': {'lock': None},
  'explain': 'path-sensitive typestate dataflow to a fixpoint over every path of every public operation of the three concurrent indexes',
  'rule_text': 'every latch acquired on a path is released exactly once before the operation returns; no latch is re-acquired while held, released while not held, or taken on a null object',
  'assumptions': COMMON,
 },
 'C02': {
  'runs': [run(b, 'lock') for b in ALL3],
  'rules': {'order': None},
  'explain': 'the acquired-while-holding relation of latches is collected over all paths of all operations of one index and checked for inversions',
  'rule_text': 'blocking latch acquisitions follow one order per index: no cycle between latch classes (root, node, table) and never both child-while-parent-held and parent-while-child-held; try-lock acquisitions cannot block and are excluded',
  'assumptions': COMMON + ["snapshots recorded during a descent are ordered from the root to the leaf"],
 },
 'C03': {
  'runs': [run(b, 'lock,guard') for b in ALL3] + [run(BT, 'lock,version', roots='root_btcm_(Insert|Upsert|Update|Delete)')],
  'rules': {'guard': None, 'publish': None},
  'explain': 'every store that can reach memory shared between operations, on every path of every operation, is matched with the latches held at that point',
  'rule_text': 'a store to a node, bucket, root link or root state that is not private to the running operation happens only while the latch guarding that object is held; a freshly built object becomes reachable only through a release store or under the latch of the linked-from node, and is not written to by plain stores that come after',
  'assumptions': COMMON + LIVE + ["statistics counters are exempt (relaxed per-thread counters)"],
 },
 'C04': {
  'runs': [run(BT, 'lock,version'), run(ART, 'lock,version')],
  'rules': {'version': None},
  'explain': 'typestate of the version word of every node (and of the root) relative to the content stores made under its latch, over every path',
  'rule_text': 'a reachable B+Tree node changes only between a store that sets its locked mark and one that clears it with the version counted up; a latch is never released with the mark set or (radix tree) with a change not followed by a version store; versions are derived from the previous one, stored with release, and a deleted mark is never cleared nor a deleted node changed',
  'assumptions': COMMON + LIVE,
 },
 'C05': {
  'runs': [run(b, 'lock,validate') for b in (BT, ART)] + [run(HT, 'lock,validate,slot')] + [run(BTIT, 'lock,validate', roots='root_btit_.*')],
  'rules': {'validate': None, 'slot': None},
  'explain': 'typestate of unlatched reads: each is an obligation discharged by a later comparison of the version of that node, over every path',
  'rule_text': 'an operation does not return, and does not settle on a node to change, while a read made without a latch has not been followed by a successful comparison of that node\'s version; a node is changed only after its version (or the root link) was compared under its latch, or when it was latched through a link of a latched node; values overwritten in place are read under their latch; in the hash map a slot is filled, changed or emptied, and a chain extended, only after finding under the latch of the slot that it is free, still holds its entry, or ends the chain and holds another key',
  'assumptions': COMMON + LIVE + ['radix-tree readers follow links without validation: its links are changed in place by single stores and nodes replaced by copies (checked by C03 and C08)'],
 },
 'C06': {
  'runs': [run(b, 'lock,epoch') for b in ALL3 + (BTIT,)],
  'rules': {'epoch': None},
  'explain': 'every read, write and latch operation on memory reached through a shared link is matched with the epoch section that is open at that point, on every path',
  'rule_text': 'memory reached through a shared link is only touched between enter_epoch and exit_epoch, never with a pointer obtained in an earlier section, sections are balanced on every path and never end while a latch inside protected memory is held',
  'assumptions': COMMON + LIVE + ["destructors and reclaim_all run without concurrent operations"],
 },
 'C07': {
  'runs': [run(b, 'lock,own') for b in ALL3],
  'rules': {'own': None},
  'explain': 'allocation-ownership typestate over every path of every operation',
  'rule_text': 'an object allocated by an operation is linked into the index, handed over or freed on every path; nothing is freed twice, freed while its own latch is held, freed directly while other operations may reach it, or touched after it was freed',
  'assumptions': COMMON + LIVE + ["a version bump of an ART node means its links were changed as intended: fresh objects count as linked from there on"],
 },
 'C08': {
  'runs': [run(b, 'lock,retire') for b in ALL3],
  'rules': {'retire': None},
  'explain': 'typestate of nodes taken out of the index (unlinked, marked deleted, handed to reclamation) over every path',
  'rule_text': 'a node is handed to reclamation only after a link was overwritten on that path and after it was marked deleted under its latch (tree nodes), at most once, never after being freed; a node marked deleted is always handed to reclamation before the operation returns',
  'assumptions': COMMON + LIVE,
 },
 'C09': {
  'runs': [{'tu': 'epoch', 'cap': 24, 'cfg': '', 'mon': 'epochmgr'}],
  'rules': {'epochmgr': None},
  'explain': 'typestate of the epoch protocol (slots, nesting, tags, retire lists) over every path of every operation of EpochManager, with an inductive bound over the slots scanned by loops',
  'rule_text': 'an outermost enter_epoch publishes the global epoch it read, behind a full fence, nested ones do not, and only the exit matching the outermost one withdraws it; retired objects all go to the own list, once, tagged with an epoch read or ended by that operation; a reclaimer runs only for an object whose tag was compared as smaller than a value not above the epoch of any registered slot, each slot read once; an object leaves a list exactly when it was reclaimed; the global epoch only ever goes up by one atomically',
  'assumptions': COMMON + ["ThreadID() is constant for a thread and at most MaxThreadID(); a slot is only used by the thread it belongs to", "std::deque and std::vector behave as arrays", "reclaimers do not use the manager they are called from"],
 },
 'C10': {
  'runs': [run(b, 'lock,count') for b in ALL3],
  'rules': {'count': None},
  'explain': 'every change of an element counter is matched with the result the operation returns, on every path of every operation',
  'rule_text': 'an operation that returns that it added (removed) an element raises (lowers) the element count by exactly one on that path; every other path leaves it unchanged; size() and the other operations never change it; a counter is changed by one atomic step or is the running thread\'s own; size() returns exactly the added less the removed elements of all counters',
  'assumptions': COMMON + ["counters of a table that was replaced during the operation no longer count"],
 },
 'C11': {
  'runs': [run(BTM, 'solo'), run(ARTM, 'solo')],
  'rules': {'solo': None},
  'explain': 'ownership typestate of every node over every path of every operation of the two single-threaded maps',
  'rule_text': 'a node an operation allocates is linked into the map or freed before it returns; a node whose content was moved to another node, or that was replaced by a new one, is freed; a node that is freed was unlinked, is freed once, and is not accessed afterwards',
  'assumptions': COMMON + SOLO,
 },
 'C12': {
  'runs': [run(BTM, 'solosize'), run(ARTM, 'solosize')],
  'rules': {'solosize': None},
  'explain': 'every change of the kept size is matched with the result the operation returns, on every path of every operation of the two single-threaded maps',
  'rule_text': 'an operation that reports that it added (removed) an element raises (lowers) the size by exactly one on that path; every other path leaves it unchanged; size() returns the number so kept',
  'assumptions': COMMON + SOLO,
 },
 'C18': {
  'runs': [run(HT, 'lock,slot,migrate', roots='root_ht_(Insert|Upsert|Update|Search|Delete|reserve|size|reclaim)')],
  'rules': {'migrate': None},
  'explain': 'typestate of the table migration (flag, latches, table pointer) over every path of every operation of the hash map',
  'rule_text': 'a bucket or chain of the shared table changes only under its latch and after reading, under that latch, a clear migration flag and the unchanged table pointer; entries are copied out of the shared table only under the latch of their bucket and with the flag raised; the flag is cleared only after the table pointer was replaced, and always before the operation returns; the table is replaced only when every slot of the old one was, under its latch, found empty or copied',
  'assumptions': COMMON + ["destructors, constructors and reclaim_all run without concurrent operations"],
 },
}
