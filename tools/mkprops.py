#!/usr/bin/env python3
# writes properties.jsonl
import json
N='src/node/mod.rs'; L='src/lib.rs'; B='src/store/blob_store.rs'; M='src/store/mem_store.rs'; P='src/store/paged_file_store.rs'; U='src/util.rs'
def p(id,title,stmt,over,q,why,files,mech,obs=None):
    return dict(id=id,title=title,statement=stmt,quantifier=dict(over=over,text=q),why_tests_cant=why,
        anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=obs or [],hook_needed=None))
R=[
p('C01','A tree is a map: lookups see exactly the last write per key',
 'After any sequence of inserts and removals, and after building a tree from a list of entries, looking up a key returns the value written last for that key, and nothing if the key was never written or was removed since. Containment tests and the emptiness test agree with lookups, and a removal of an absent key or an overwrite of a present key changes no other entry.',
 ['histories','inputs'],'every history of inserts/removals over arbitrary byte-string keys and values (including empty keys, keys that are prefixes of one another, empty values and values and keys longer than the inline limits), every probe key',
 'The tests insert a few dozen fixed or randomly generated keys; which node split, merge, inline-or-heap representation and child position is taken depends on the bytes and lengths of all keys together.',
 [N,L],[('insert as an outer combine with a single-entry tree',N+': RadixTree::try_insert, outer_combine_with'),('remove',N+': RadixTree::try_remove, left_combine_with, canonicalize'),('lookup',N+': find'),('building from entries',N+': FromIterator; '+L+': radixtree!')],['get','contains_key','is_empty','iter']),
p('C02','Traversal yields every entry once, in key order, with both ends right',
 'Iterating a tree yields each of its entries exactly once in increasing lexicographic order of the keys, and iterating the values yields the same values in the same order. The first and last value and entry are those of the smallest and largest key, also when a prefix is given that the returned key starts with.',
 ['inputs','histories'],'every tree content (keys that are prefixes of one another, bytes at both ends of the range, empty key) however it was reached',
 'Order matters at every byte boundary (for example 0x7f/0x80, a key versus its extension); tests look at a few sampled key sets.',
 [N],[('iterators with a stack of child iterators',N+': KeyValueIter::next0, ValueIter::next0'),('first and last',N+': first_value, last_value, first_entry, last_entry'),('sorted children',N+': outer_combine_children_with, OuterJoin')],['iter','values','first_value','last_value','first_entry','last_entry']),
p('C03','Prefix queries select exactly the keys with that prefix',
 'Scanning a prefix yields exactly the entries whose key starts with it, in order and under their full keys; testing for a prefix answers whether there is such an entry; filtering by a prefix gives the tree of those entries with the prefix replaced by the substitution. None of them changes the tree they are applied to.',
 ['inputs'],'every content and every prefix: empty, ending inside a node, at a node boundary, past the end of a key, absent; every substitution including the empty one',
 'The case taken depends on where the prefix ends relative to the compressed edges of the tree; tests sample a few.',
 [N],[('prefix search',N+': find, FindResult'),('scan',N+': scan_prefix'),('filter',N+': filter_prefix'),('has_prefix',N+': TreeNode::has_prefix')],['scan_prefix','has_prefix','filter_prefix']),
p('C04','Removing a prefix removes exactly the keys with that prefix',
 'Removing a prefix deletes exactly the entries whose key starts with it and leaves every other entry with its value. Removing a prefix that no key has changes nothing, and removing the empty prefix empties the tree.',
 ['inputs'],'every content and every prefix',
 'Depends on where the prefix ends relative to compressed edges, and on what remains to be merged afterwards.',
 [N],[('remove_prefix through a single-entry tree',N+': RadixTree::try_remove_prefix, remove_prefix_with'),('merging of single children',N+': canonicalize')],['remove_prefix','iter']),
p('C05','Outer combination is the union with colliding values combined',
 'The outer combination of two trees holds every key of either: with its own value when only one side has the key, and with whatever the combining function decides for the two values (a value or nothing) when both have it. The in-place variant leaves in the target exactly what the other variant returns, the function is asked exactly once per key present on both sides and with the left value first, and the argument tree is unchanged.',
 ['inputs','programs'],'every pair of contents and every deterministic combining function (keep left, keep right, replace, drop, depending on the values)',
 'Each step depends on how the prefixes of two nodes relate (equal, one a prefix of the other, diverging) at every level at once; random tests with one fixed function sample this.',
 [N],[('outer_combine',N+': outer_combine, outer_combine_children, OuterJoin'),('in place',N+': outer_combine_with, outer_combine_children_with'),('splitting and merging',N+': split, clone_shortened, canonicalize')],['outer_combine','outer_combine_with','iter']),
p('C06','Inner combination is the intersection with values combined',
 'The inner combination of two trees holds exactly the keys present in both for which the combining function gives a value, with that value; the in-place variant leaves the same in the target. The predicate variant answers whether some key present in both satisfies the predicate.',
 ['inputs','programs'],'every pair of contents, every deterministic combining function or predicate',
 'As for the outer combination; nothing outside the intersection may survive on any branch.',
 [N],[('inner_combine',N+': inner_combine, inner_combine_children'),('in place',N+': inner_combine_with, inner_combine_children_with'),('predicate',N+': inner_combine_pred, inner_combine_children_pred')],['inner_combine','inner_combine_with','inner_combine_pred']),
p('C07','Left combination is the left join with values combined',
 'The left combination of two trees holds every key of the left tree that the right tree does not have with its own value, and every key both have for which the combining function gives a value with that value, and nothing else; the in-place variant leaves the same in the target. The predicate variant answers whether some key of the left tree is absent on the right or satisfies the predicate.',
 ['inputs','programs'],'every pair of contents, every deterministic combining function or predicate (with dropping, this is the difference of sets and the subset test)',
 'As for the outer combination.',
 [N],[('left_combine',N+': left_combine, left_combine_children'),('in place',N+': left_combine_with, left_combine_children_with'),('predicate',N+': left_combine_pred, left_combine_children_pred')],['left_combine','left_combine_with','left_combine_pred']),
p('C08','Retaining and removing by a set of prefixes filters exactly',
 'Retaining by a second tree keeps exactly the entries whose key starts with some key of the second tree whose value satisfies the predicate, and removing by a second tree keeps exactly the entries for which there is no such key. Values that stay are unchanged, and so is the second tree.',
 ['inputs','programs'],'every pair of contents (prefixes nested in one another, some accepted and some rejected by the predicate), every predicate on values',
 'A rejected prefix above an accepted longer one, or the reverse, needs a particular arrangement of both trees that the random tests (with a constant predicate) never set up.',
 [N],[('retain',N+': retain_prefix_with, retain_prefix_children_with'),('remove',N+': remove_prefix_with, remove_prefix_children_with')],['retain_prefix_with','remove_prefix_with','iter']),
p('C09','Trees are equal exactly when their contents are equal',
 'Two trees compare equal if and only if they hold the same keys with the same values, no matter by which operations each was reached. In particular every operation leaves a tree that is equal to one built from its entries in any order.',
 ['histories','inputs'],'every pair of contents and every history leading to them, including removals, prefix operations and all combinations',
 'Equality is structural, so one operation that leaves a node unmerged, an empty child list or an empty value where there should be none breaks it for particular histories only.',
 [N],[('equality',N+': PartialEq for TreeNode and RadixTree'),('canonical form',N+': canonicalize, split, load_children_mut')],['==']),
p('C10','Grouping splits a tree into disjoint parts that add up to it',
 'Grouping a tree by a descend decision yields trees with full keys that are pairwise disjoint, in key order, and together hold exactly the entries of the tree. A part that the decision does not descend into is yielded whole, and where it descends the value of that node forms a part of its own.',
 ['inputs','programs'],'every content and every deterministic decision over the path and the node',
 'Tests group one fixed tree by one fixed rule.',
 [N],[('group_by',N+': GroupBy::next0, GroupBy::new')],['group_by']),
p('C11','Clones, iterators and results are snapshots',
 'A clone of a tree, an iterator started on it, a value taken from it and the result of any combination keep showing what they showed when they were made, whatever is done to the original afterwards; and changing the clone or result never changes the original. Dropping any of them in any order is harmless to the others.',
 ['histories','inputs'],'every content, every later change to original or copy at every point of an iteration, every drop order',
 'Sharing happens per node through reference counts with copy on write; whether a mutation hits a shared node depends on the history.',
 [N,B],[('shared children copied on write',N+': ChildrenRef, Arc::make_mut in load_children_mut'),('iterator key copy on write',N+': IterKey'),('shared long prefixes and values',N+': CompactOwnedBlob')],['clone','iter','scan_prefix']),
p('C12','Attaching, reattaching, loading and detaching keep the content',
 'A tree attached to a store, loaded again from the id its reattachment returned, and detached from the store each hold exactly the entries of the original, and a detached one compares equal to the original. This includes keys and values of every length around the limits where their storage changes, nodes with a single value and no prefix, and the empty tree.',
 ['inputs'],'every content; key parts and values of 0 to 9, 127, 128, 129, 255, 256 and more bytes; up to 256 children per node',
 'The encoding changes with each length and with the size of the whole child list; tests use a handful of lengths and one random mix.',
 [N,M],[('writing nodes',N+': TreeNode::serialize, serialize_children, OwnedBlobRef::serialize'),('reading nodes',N+': BorrowedTreeNode::read_one, BorrowedTreeNodeIter'),('attach and detach',N+': try_attached, try_detached, try_reattach, try_load')],['try_attached','try_reattach','try_load','try_detached']),
p('C13','Attached trees answer and change like detached ones',
 'Every query on a tree whose nodes live in a store (lookup, prefix test, iteration, prefix scan, prefix filter, first and last, grouping) gives what it gives on the same content in memory, and every insert, removal and prefix removal on it has the same effect. This holds whatever mixture of nodes in memory and nodes in the store the tree consists of.',
 ['histories','inputs'],'every content and every history that interleaves changes with persisting',
 'There are two node representations and the code taken depends on which nodes are loaded; tests cover a few orders of operations.',
 [N],[('two representations behind one reference',N+': TreeNodeRef, TreeNodeIter, BorrowedTreeNode'),('loading on change',N+': load_children_mut, split')],['try_get','try_insert','try_remove','try_iter','try_scan_prefix']),
p('C14','Combining attached trees gives what combining detached ones gives',
 'Every combination, with either or both operands living in stores, and in each of its three variants, gives the same result as on the same contents in memory. It never panics on trees the library itself persisted.',
 ['inputs','configurations'],'every pair of contents, each side detached, partly changed or wholly in a store, every variant and converter',
 'Tests combine attached trees only where children are disjoint or small; unloaded children, long prefixes or values behind ids take other code.',
 [N],[('combinations on node references',N+': outer_combine, inner_combine, left_combine and their _with and _pred variants'),('converters',N+': NodeConverter, DetachConverter, IdentityConverter, DowncastConverter')],['try_outer_combine','try_inner_combine','try_left_combine','try_retain_prefix_with']),
p('C15','Persisted versions are immutable and persisting is incremental',
 'A tree loaded from an id shows the content it had when that id was returned, whatever has been persisted later to the same store. Queries write nothing to the store, and persisting a tree again writes only what lies on the paths that changed, not the untouched subtrees.',
 ['histories','inputs'],'every history of changes and reattachments on one store, every earlier id',
 'Needs several versions over one store compared against the model at the end; tests look at the newest version.',
 [N,M],[('append-only store use',N+': TreeNode::serialize, try_reattach'),('unloaded children keep their id',N+': ChildrenRef id, serialize')],['try_load','BlobStore::append']),
p('C16','Bytes written have the documented format',
 'What a tree writes to its store follows the documented format: each node is prefix, value, children, each a header byte (high bit for an id, low bits for the length) and that many bytes; absent values and children are 0x80; data longer than 127 bytes is always behind an id, an id prefix carries its first byte, and a child block starts with the constant record size or 0 when sizes differ. Reading that format by the documentation alone recovers exactly the content, and trees written that way by others are read back with the same content.',
 ['inputs'],'every content within the bounds; every valid encoding of it, not only those the writer picks',
 'Data outlives the program version that wrote it; tests only check that this version reads what it wrote.',
 [L,N],[('format description',L+': Serialized format'),('writer',N+': TreeNode::serialize, Header'),('reader',N+': BorrowedTreeNode::read_one, BorrowedTreeNodeIter::next, find')],['BlobStore::append','BlobStore::read']),
p('C17','Malformed stored data is reported, never a crash or bad memory access',
 'Whatever bytes a store returns for a root or child block, and whatever id is given, loading and using the tree ends in an error or in some answer, never in a panic, endless loop or access outside the data. Data that cannot be a node sequence is reported as an error rather than as an empty or shortened tree.',
 ['inputs'],'every byte string up to the bound in place of a root, child block, prefix or value; every id',
 'The parser reads lengths from untrusted bytes through unchecked pointers; tests never feed it damaged data.',
 [N,P],[('node parser',N+': BorrowedTreeNode::read_one, BorrowedTreeNodeIter'),('root loading',N+': RadixTree::try_load, TreeNode::deserialize'),('id parsing',P+': PagedFileStore::read')],['try_load','try_iter','try_get']),
p('C18','Store errors surface and do not lose or invent data',
 'If the store fails on any read or write, the operation in progress returns that error without panicking, and an iterator yields the error once and then ends. Queries and failed persisting leave the tree as it was, so that retrying after the fault gives the right result, and a success is never reported for an operation that could not be carried out.',
 ['fault_sequences','histories'],'every content, every operation, failure of every single store access in turn',
 'No test has a store that fails.',
 [N],[('error propagation',N+': try_* methods, KeyValueIter::next, ValueIter::next, GroupBy::next'),('in-place changes',N+': *_children_with, InPlaceVecBuilder'),('persisting',N+': try_reattach')],['try_get','try_iter','try_insert','try_reattach']),
p('C19','The in-memory store returns each block under its own id, for good',
 'Every appended block gets an id different from all ids before it, reading an id returns exactly the block appended under it no matter what was appended since, and reading an id that was never returned is an error. Clones of the store share the same blocks.',
 ['histories','inputs'],'every sequence of appends and reads, every id',
 'Tests use the store only through trees with valid ids.',
 [M],[('append and read',M+': MemStore::append, MemStore::read')],['BlobStore::append','BlobStore::read']),
p('C20','The paged file store returns every block, across pages and reopening',
 'Every block that was accepted is read back unchanged under its id, immediately and after the store is reopened on the same file, for every mix of block sizes and every page size; ids are pairwise different. A reopened store continues after the last block, reports the last block as the last, and a block that cannot fit a page is refused with an error that changes nothing.',
 ['histories','inputs','configurations'],'every sequence of appends, reads and reopens, block sizes from 0 to the page size, at every position relative to the page end',
 'Whether a block ends exactly at, just before or past a page end depends on all sizes before it; tests use one page size and one pattern.',
 [P],[('append and page switch',P+': Inner::append, close_page'),('read from mapped or pending page',P+': Inner::bytes, PagedFileStore::read'),('reopening',P+': PagedFileStore::new, FileHeader')],['append','read','last_id','PagedFileStore::new']),
p('C21','The paged file store survives a crash of the process at any point',
 'If the process dies between any two writes to the file, or part way through one (writes of up to 8 bytes are taken to be all or nothing), the file opens again, every block whose append had returned reads back unchanged, and the last id is that of a block that was appended completely. Appending after the reopening works and disturbs none of them.',
 ['crash_points','histories'],'every sequence of appends, every write call and every prefix of its data at which the process dies',
 'No test interrupts the store.',
 [P],[('data first, commit size after',P+': Inner::append, commit, close_page'),('reopening',P+': PagedFileStore::new')],['append','read','last_id']),
p('C22','After a successful sync, blocks survive loss of power',
 'Once a sync has returned successfully, every block appended before it is readable after a loss of power that drops any subset of the writes not yet forced to the disk.',
 ['crash_points','histories'],'every sequence of appends and syncs, every power-loss point after a sync, every subset of unforced writes lost',
 'No test can cut power; a sync that forces nothing passes every test.',
 [P],[('sync',P+': PagedFileStore::sync'),('commit order',P+': commit')],['sync','read','last_id']),
p('C23','Errors of file operations leave the paged file store consistent',
 'When any file operation fails or a write is cut short, the call reports an error, every block accepted before stays readable now and after reopening, and later appends that succeed are readable too. No block is reported as appended that cannot be read back.',
 ['fault_sequences','histories'],'every sequence of appends, failure of every single file operation in turn (error or short write)',
 'No test injects file errors.',
 [P],[('append error paths',P+': Inner::append, close_page, commit')],['append','read']),
p('C24','No memory error, leak or undefined result for any use',
 'No use of the safe interface reads or writes memory that is not its own, frees anything twice, uses anything after it is freed, or reads uninitialised memory. When all trees, iterators, values and stores are dropped, all memory they allocated is freed.',
 ['inputs','histories'],'every use: all operations on arbitrary contents, with clones and drops in between, in memory and on stores, with empty to long keys and values',
 'Nodes keep pointers, inline bytes and reference counts in raw unions told apart by header bytes; a wrong header is undefined behaviour or a leak that no assertion sees.',
 [N,B],[('compact blobs in unions',N+': CompactOwnedBlob, ChildrenRef, Header, manual_clone, manual_drop'),('blob sharing',B+': Blob, OwnedBlob')],['every operation']),
p('C25','Blobs are byte strings: slices, order, equality and hashes agree',
 'A blob made from bytes, a slice of a blob, a blob that refers to part of another and an owned copy show exactly the bytes they were made from for as long as they live, and comparing, ordering and hashing blobs is comparing, ordering and hashing their bytes. Slicing outside a blob is refused rather than showing other memory.',
 ['inputs'],'every byte string and every range or subslice, including empty ones and ranges outside; every drop order of blob and slice',
 'Blobs carry a raw pointer next to the owner that keeps it alive; tests never take subslices.',
 [B],[('blob',B+': Blob, OwnedBlob, slice, slice_ref, to_owned')],['Blob::slice','Blob::slice_ref','Blob::to_owned','==','Ord','Hash']),
p('C26','Trees and stores can be shared between threads',
 'Using clones of one tree, or one store, from several threads at the same time gives each thread the results it would get alone, without data races.',
 ['schedules'],'every interleaving of operations on clones in several threads',
 'No test uses threads.',
 [N,M,P],[('atomic reference counts',N+': Arc based sharing'),('locks',M+', '+P+': parking_lot mutex')],['every operation']),
p('C27','The browser store reads back what was written to its cache',
 'In the browser crate, a block written to the store is read back unchanged through the cache layers after flushing and reloading.',
 ['histories'],'every sequence of writes, flushes and reloads',
 'Needs a browser.',
 ['browser/src/lib.rs'],[('browser store','browser/')],[]),
]
for r in R:
    assert len(r['title'])<=80,(r['id'],len(r['title']))
    n=r['statement'].count('. ')+1
    assert n<=3,(r['id'],n)
open('/verif/properties.jsonl','w').write(''.join(json.dumps(r)+'\n' for r in R))
