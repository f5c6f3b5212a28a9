import json
P=[]
def p(id,title,statement,over,text,why,files,mech,state=(),observe=(),hook=None):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,state=[dict(name=a,meaning=b,where=c) for a,b,c in state],mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=list(observe),hook_needed=hook)))
B='src/node/behaviors/'
p('C01','Tree lock: mutual exclusion over the whole tree',
 "At any moment at most one thread is inside a critical section entered through the tree lock (explicit lock object, with-statement or locked method) of any nodes of the same tree, whichever node the lock was taken from and including the very first use of the lock. The owning thread may re-enter through any node of the tree, and the tree becomes free exactly when the outermost section is left, normally or by an exception (leaving a section gives back what entering it took, also if the owner put the tree into another one in between). Results and exceptions of a locked method reach the caller unchanged, and sections of different trees never block each other.",
 ['schedules','fault_sequences'],'every interleaving of any number of threads, every node the lock is taken from, every nesting, every exception raised inside a section; trees whose root is not changed while another thread holds or waits for the lock',
 'Tests take the lock from a single thread; the race on the first use, exclusion between nodes of one tree and progress after a failing section exist only for particular thread schedules.',
 ['src/node/locking.py'],[('TreeLock','src/node/locking.py:TreeLock'),('locktree','src/node/locking.py:locktree')],
 [('_treelock','the one lock object shared by all nodes of a tree, held on the root','src/node/locking.py')],['TreeLock.acquire/release/__enter__/__exit__','methods decorated with locktree'],
 'none: the simulator supplies the lock primitives at import time and preempts threads through the instruction events of the interpreter')
p('C02','Locked operations on a shared tree are linearizable',
 "When threads access a tree only inside tree lock sections, every operation returns what it would return if the sections ran one at a time in the order in which they were entered, and the final children, order, attributes, uuid index and lazily created per-node state equal that sequential execution. Nothing written in a completed section is lost, and a section that fails leaves no trace of the operation that failed.",
 ['schedules','histories','fault_sequences'],'every interleaving of every set of concurrent operation sequences on shipped and custom node classes, with storage failures in some of the operations; locks are taken from nodes that stay in the tree',
 'No test runs two threads against one tree.',
 ['src/node/locking.py','src/node/base.py','src/node/utils.py',B+'storage.py',B+'reference.py',B+'order.py',B+'attributes.py',B+'common.py'],
 [('locktree','src/node/locking.py'),('instance_property (lazy storage)','src/node/utils.py:instance_property')],(),['mapping, order, attrs and uuid index API of Node, OrderedNode, BaseNode'])
p('C03','Event dispatch reaches every subscriber exactly once, in order',
 "A dispatched event calls exactly the subscribers that are bound to that event on that object when the dispatch starts, each once, in binding order and with the dispatched arguments; assigning an event attribute does so exactly when the value changes (always, if so configured), decorator-registered subscribers of that attribute first. Binding to an event that neither the object nor its class declares is refused. This holds for objects of every class, whatever its constructor takes, in every thread, for events dispatched from inside subscribers and for subscribers that bind or unbind while being called. A failing subscriber propagates its exception to the dispatching caller and affects no other or later dispatch, object or attribute value.",
 ['schedules','histories','fault_sequences'],'every history of bind, unbind, register, dispatch, attribute set/delete, nested to any depth, in any number of threads, with any subscriber failing at any call',
 'Tests dispatch once or twice from the main thread with passive subscribers; reentrancy, unbinding during dispatch, failing subscribers and other threads are not reached.',
 [B+'events.py','src/node/events.py'],[('Events.dispatch',B+'events.py:Events.dispatch'),('EventAttribute.__set__',B+'events.py:EventAttribute'),('_subscribers',B+'events.py:_subscribers')],
 [('_attribute_subscribers','per-thread hand-over of decorator subscribers to the dispatch they belong to',B+'events.py')],['subscriber calls'])
p('C04','Event suppression is scoped to its block and its thread',
 "While a thread is inside one or more suppression blocks, exactly the events named by the enclosing blocks (all events, if a block is created without names) are not delivered for dispatches made by that thread; every other event is delivered. Leaving a block, normally or by an exception, restores exactly the suppression that was in force when it was entered, for any nesting, repetition and overlap of names, also if one block object is used again, inside of itself or in several threads, and the block reports its nesting depth. A suppression never affects dispatches made by other threads.",
 ['schedules','histories','fault_sequences'],'every nesting of suppression blocks in every thread, exceptions leaving blocks at any depth, every interleaving of the threads',
 'Tests use single, un-nested, never failing blocks in the main thread.',
 [B+'events.py'],[('suppress_events',B+'events.py:suppress_events')],[('suppress_events.data','per-thread nesting depth and names',B+'events.py')],['which subscribers are called'])
p('C05','Fallback lookup finds the documented value and leaves no state behind',
 "Looking up a key on a node with fallback support returns the own value if there is one, otherwise the first hit of the documented search (towards the root, trying the fallback subtree of each ancestor with the same subpath, and the fallbacks inside that subtree first), otherwise a KeyError naming the requested key. The outcome depends only on the current tree: no earlier lookup, whether it succeeded, missed or died from a storage error, and no lookup running in another thread changes it.",
 ['schedules','histories','fault_sequences'],'every tree with fallback keys on any levels, every history of changes and lookups, a storage error at any read of a lookup, every interleaving of concurrent readers',
 'One fixed tree, five lookups, one thread, no failing storage.',
 [B+'fallback.py','src/node/interfaces.py'],[('Fallback.__getitem__',B+'fallback.py'),('fallback_processing',B+'fallback.py')],
 [('fallback_processing.data','per-thread recursion guard',B+'fallback.py')],['node[key], node.get(key)'])
p('C06','Containment and hierarchy agree, also after failed mutations',
 "A node that was put into a container knows that container as parent and its key as name, and removing it takes it out of that container only. A mutation of one child that raises for whatever reason (rejected child, missing key, any error of the storage) leaves the children of the container and the name and parent of every node involved exactly as they were. A container that does not allow non-node children never contains one.",
 ['histories','fault_sequences'],'every history of set, delete, pop, detach, move, setdefault, update on trees built from the adopting node classes, with any storage operation failing with any exception type',
 'Tests check one successful adoption and one KeyError from a fake dictionary.',
 [B+'common.py',B+'nodify.py','src/node/base.py'],[('Adopt.__setitem__',B+'common.py:Adopt'),('NodeChildValidate.__setitem__',B+'common.py:NodeChildValidate'),('Nodify.detach',B+'nodify.py:Nodify.detach')],
 [('__name__/__parent__','location of a node','every node')],['name, parent, keys, values'])
p('C07','A node behaves as a mapping, also when its storage fails',
 "After every history of operations a node's full mapping API (item access, get, in, len, iteration, keys/values/items and their iterators, has_key, pop, popitem, setdefault, update, clear) answers as an ordinary dictionary that received the successful operations, in insertion order for ordered nodes. A single-key operation that fails is not applied and bulk operations that fail have applied exactly a prefix of their steps. Reads never change the content, and errors of the storage other than a missing key are never swallowed or turned into defaults.",
 ['histories','fault_sequences'],'every operation history over the unordered and ordered node classes and the mapping behaviors, a storage failure of any exception type at any storage call',
 'FullMappingTester runs one fixed script per class; histories longer than a few steps and failing storages are not reached.',
 [B+'mapping.py',B+'storage.py','src/node/base.py'],[('FullMapping',B+'mapping.py'),('Storage, DictStorage, OdictStorage',B+'storage.py')],(),['mapping API'])
p('C08','The uuid index of a tree contains exactly the nodes of the tree',
 "From every node of a referencing tree, looking up the uuid of any node of the tree returns that node, and looking up any other uuid finds nothing, after any history of adding (single nodes and whole subtrees), replacing, deleting, popping, detaching, moving between trees and changing uuids. A node or subtree that left a tree has its own index and can be added again. Additions and uuid changes that would make a uuid ambiguous are refused, and a refused or failed operation leaves every index unchanged.",
 ['histories','fault_sequences'],'every history over several trees, a storage failure at any storage call',
 'Tests look at trees of depth two built top down with no failing operation; bottom-up building, replacement, re-adding and failures are not reached.',
 [B+'reference.py','src/node/base.py'],[('Reference',B+'reference.py:Reference')],[('_index','uuid to node map shared by the nodes of a tree',B+'reference.py')],['node.node(uuid), node.index'])
p('C09','Order operations produce exactly the requested order',
 "Inserting before or after a child, first or last, and swapping children change the child order exactly as requested and nothing else, and the inserted node is adopted (name, parent, uuid index) like one set by key. Operations naming an unknown reference child, a nameless new node, a new node whose name is already taken in the container or that is already contained in the (referencing) tree, and operations during which validation or the storage fails raise and leave children, order, index and the new node unchanged.",
 ['histories','fault_sequences'],'every history of order and mapping operations on ordering node classes with and without uuid index, a failure at any storage call',
 'Tests apply each operation a few times to one small node, without failures.',
 [B+'order.py',B+'storage.py'],[('Order',B+'order.py:Order')],(),['keys(), values(), items()'])
p('C10','Lifecycle: one event per successful change, none for failed ones',
 "Creating, adding, removing and detaching a node and changing its attributes each notify exactly one event of the configured kind (created, added, removed, detached, modified) about the right object, parent and key, after the change took effect; detaching notifies no removal. A change that fails notifies nothing and does not affect the notification of any later change. An error raised by an event handler reaches the caller, with the change in place, and loses no later notification.",
 ['histories','fault_sequences'],'every history of operations including failing ones, handlers and storages failing at any point',
 'Tests trigger each event once on a fresh node; what happens after a failing operation is not reached.',
 [B+'lifecycle.py','src/node/events.py'],[('Lifecycle',B+'lifecycle.py:Lifecycle'),('AttributesLifecycle',B+'lifecycle.py:AttributesLifecycle')],
 [('_notify_suppress','notifications of this node are suppressed',B+'lifecycle.py')],['zope.component object event handlers'])
p('C11','Cache and invalidation never serve wrong children',
 "Through a caching node every read returns what the backing storage held for that key when it was last written through the node or loaded, whichever is later; a value that was loaded is served from the cache, without loading again, until its key is written, deleted or invalidated. Invalidating a key (or all) makes the next read load again and removes deleted values; invalidating an unknown key raises KeyError. A failing load, write or delete never leaves a wrong value in the cache: the next read answers from the storage.",
 ['histories','fault_sequences'],'every history of reads, writes, deletes, invalidations and changes of the backing storage behind the node, a storage failure at any call',
 'Tests follow one script per behavior with a volatile storage that never changes behind the cache and never fails.',
 [B+'cache.py'],[('Cache',B+'cache.py:Cache'),('Invalidate, VolatileStorageInvalidate',B+'cache.py')],[('cache','loaded children',B+'cache.py')],['node[key], invalidate()'])
p('C12','Factory-made children are created once and adopted',
 "A child provided by a factory is created on first access, exactly once as long as it stays in the node, adopted by the node under its key and the same object for every later access; after it is deleted or invalidated the next access creates a fresh one, and the node always iterates exactly its declared factory keys in order. A factory or storage that fails makes the access fail, leaves no partial child behind and the next access tries again. Fixed children are created all at construction, adopted under their keys and cannot be replaced or removed.",
 ['histories','fault_sequences','schedules'],'every history of accesses, deletions and invalidations, a failure of any factory or storage call, concurrent accesses under the tree lock',
 'Tests access each child once with factories that never fail.',
 [B+'common.py',B+'cache.py'],[('ChildFactory',B+'common.py:ChildFactory'),('FixedChildren',B+'common.py:FixedChildren')],(),['node[key], keys(), values()'])
p('C13','Attributes and other nodespaces stay separate from children',
 "Attributes of a node form a mapping of their own: created on first use, once, with the node as parent, keeping their values and order through any history; they and other double-underscore nodespaces are reachable by their reserved key but never show up in, count as, replace or get removed with the children, nor children with them. Failures of the storage or of the attributes factory leave both mappings as they were and later accesses work.",
 ['histories','fault_sequences'],'every history of child, attribute and nodespace operations, a failure at any storage or factory call',
 'Tests read and write a handful of attributes on one node.',
 [B+'attributes.py',B+'nodespace.py'],[('Attributes.attrs',B+'attributes.py'),('Nodespaces',B+'nodespace.py')],[('_nodespaces','children and other nodespaces',B+'nodespace.py')],['node.attrs, node[...], keys()'])
p('C14','Aliased nodes translate keys consistently in both directions',
 "A node with an aliaser presents its children under exactly the aliases of the stored keys: a child set under an alias is stored under the translated key, is listed, read and deleted under that alias only, keeps the alias as its name, and a whitelisting aliaser hides stored keys it does not list. Key errors, from the aliaser or the storage, name the alias used by the caller or are the aliaser's own; other storage failures pass through unchanged and no failed operation changes what the node presents or stores.",
 ['histories','fault_sequences'],'every one-to-one aliaser (prefix, suffix, both, chains, dictionary; whitelisting ones strict), every history of operations through the node and directly on the storage, a storage failure at any call',
 'Tests use one prefix and one dictionary aliaser with three operations on a plain dict.',
 [B+'alias.py'],[('Alias',B+'alias.py:Alias'),('aliasers',B+'alias.py')],(),['mapping API of the aliased node'])
p('C15','A JSON dump taken at any time restores the tree',
 "A dump of a node tree taken at any point of its history and loaded after a crash, alone, as a list or below a given root node, yields a tree with the same classes, names, child order of ordered nodes, custom constructor data and attribute values (numbers, strings, None, booleans, UNSET, UUIDs, references to classes and functions, and lists and dictionaries with text keys of these; values that do not look like one of these encodings), on which all further operations behave as on the original. Registered callbacks are called in the order of their registration. A dump without type information describes the same tree (names, children in order, attribute values, the classes if asked for). Dumping changes nothing, and dumps and reloads, of any kind and in any thread, do not influence each other. A torn dump or a dump or load during which a storage or callback fails raises: it never yields a tree with parts silently missing.",
 ['histories','crash_points','fault_sequences','schedules'],'trees of importable module-level classes, every operation history before the dump, crash at any operation, truncation of the dump at any byte, a failure at any storage or (de)serializer call, threads that dump and load trees nobody changes',
 'Tests serialize small hand-made trees; dumps taken in the middle of a history, torn dumps and failing callbacks are not reached.',
 ['src/node/serializer.py'],[('NodeEncoder, NodeDecoder','src/node/serializer.py'),('serializer/deserializer registries','src/node/serializer.py')],(),['serialize(), deserialize()'])
p('C16','Copies are complete and independent of the original',
 "A deep copy or a pickled and reloaded tree taken at any point of a node's history has the same classes, names, keys, order, attributes and values as the original and shares no node with it: whatever happens later to one never shows in the other, including uuid lookups, tree locks, caches, event subscribers, factory made children and computed properties. A shallow copy has the same children, name and parent. Copies of uuid aware trees get new uuids, unique in the whole copied tree, while the original keeps its own; a copy that fails half way leaves the original unchanged.",
 ['histories','crash_points','fault_sequences'],'every history before the copy (including use of attributes, cache, index and lock), every history on both sides after it, a failure of the uuid source or storage during the copy',
 'Tests copy a two-node tree once and compare; later divergence, copies of used trees and failures are not reached.',
 [B+'mapping.py',B+'nodify.py',B+'common.py','src/node/locking.py'],[('ClonableMapping',B+'mapping.py'),('Nodify.copy',B+'nodify.py'),('UUIDAware.deepcopy',B+'common.py')],(),['copy(), deepcopy(), copy module, pickle'])
p('C17','Lazily computed instance properties are computed once',
 "An instance property is computed on first access, on that instance only, exactly once, and every later access returns that same object whatever the value is (also falsy values and None). If the computation fails the failure reaches the caller, nothing is remembered and the next access computes again. This holds for classes with custom attribute hooks, for recursive use of other instance properties and for threads that access the instance under the tree lock.",
 ['histories','fault_sequences','schedules'],'every history of accesses over several instances and properties, a failure at any computation, every interleaving under the tree lock; a property does not compute itself recursively',
 'One test accesses one property twice.',
 ['src/node/utils.py'],[('instance_property','src/node/utils.py:instance_property')],[('_<name>','computed value on the instance','src/node/utils.py')],['property access'])
p('C18','Attribute style access and item access are the same data',
 "Values read and written through attribute style access (attribute access objects of nodes and of node attributes, child access by attribute name) are those of item access at the same moment, through any history on both sides. Missing names raise AttributeError on attribute access (so that hasattr, getattr with default, copying and locking work) and KeyError on item access, names that are real attributes of the class always win, and any other failure of the storage passes through unchanged and leaves the data as it was.",
 ['histories','fault_sequences'],'every interleaved history of both kinds of access, a storage failure at any call',
 'Tests read a few names once.',
 ['src/node/utils.py',B+'common.py',B+'attributes.py'],[('AttributeAccess','src/node/utils.py'),('AsAttrAccess, GetattrChildren',B+'common.py')],(),['getattr/setattr and item access'])
p('C19','Navigation answers describe the current tree',
 "At every point of a history, also right after failed operations, path, root, parent search (acquire), lookup by path, filtering of children by interface and the printed tree of every node are those of the current tree: the path leads from the root to the node and looking it up yields the node, the root is the top of the parent chain, acquire finds the nearest matching ancestor or None, filters keep child order and the printed tree shows every node once below its parent, in order for ordered nodes and sorted by name otherwise.",
 ['histories','fault_sequences'],'every history of adds, moves, detaches, renames of roots and deletes with storage failures; the application clears the parent of nodes it removed (removal leaves it behind)',
 'Tests ask these questions of one or two freshly built trees.',
 [B+'nodify.py','src/node/utils.py'],[('Nodify.path/root/acquire/filteredvalues/treerepr',B+'nodify.py'),('node_by_path','src/node/utils.py')],(),['path, root, acquire, node_by_path, treerepr'])
p('C20','Text conversion is complete, leaves the argument alone and hides nothing',
 "For every nested structure of text, bytes, lists, tuples (and subclasses of them that are made from their items), dictionaries and nodes, encoding turns every text at every depth, keys included, into bytes of the codec's encoding and decoding turns every bytes into text; containers keep their type and order (dictionaries and nodes become plain dictionaries), everything else is passed on as the same object. Bytes that are not text in the encoding are kept as they are by a soft codec and raise UnicodeDecodeError from a strict one, also after other conversions with the same codec and in threads that share it. The argument is never modified, the result shares no container with it and describes the argument as it is at the moment of the call. A failure of the storage of a node on the way reaches the caller unchanged and leaves argument and codec as they were.",
 ['inputs','histories','fault_sequences','schedules'],'every nested structure, encoding and strictness, every sequence of conversions and changes in between, a storage failure at any call, threads that convert different arguments with one codec; no cyclic structures, keys stay distinct after conversion or the last one wins',
 'Tests convert a handful of values with one codec, each once and without a failing storage.',
 ['src/node/utils.py'],[('StrCodec.encode/decode, encode, decode','src/node/utils.py')],(),['encode, decode of codecs and module'])
p('C21','A reverse mapping is a live view with keys and values exchanged',
 "At every point of a history of its context, a reverse mapping answers item access, get, containment, keys, values, items, iteration and length with the keys and values of the context exchanged as the context is at that moment, in the order of the context; values that are equal belong to the first key that has them, values that are not there raise KeyError or give the default. Asking changes nothing, and a failure of the storage reaches the caller unchanged (it is never taken for a missing value).",
 ['histories','fault_sequences'],'every history of changes of the context (nodes or dictionaries) and questions to views made at any time, a storage failure at any call',
 'One mapping that never changes is tested.',
 ['src/node/utils.py'],[('ReverseMapping','src/node/utils.py')],(),['enumerable mapping API of ReverseMapping'])
p('N01','Aliasers are inverse to each other',
 "For every aliaser and key, unaliasing an alias yields the key again and chains apply their aliasers in order and undo them in reverse order.",
 ['inputs'],'every aliaser and key','A few keys are tested.',[B+'alias.py'],[('PrefixAliaser, SuffixAliaser, AliaserChain, DictAliaser',B+'alias.py')])
p('N04','FullMappingTester verdicts are right',
 "The mapping tester reports a failure for exactly the mapping functions of the class under test that do not conform.",
 ['programs'],'every class under test','Some broken classes are tested.',['src/node/testing/fullmapping.py'],[('FullMappingTester','src/node/testing/fullmapping.py')])
with open('/verif/properties.jsonl','w') as f:
    for x in P: f.write(json.dumps(x)+'\n')
