# per-property text: (what is enumerated, oracle/decision, bounds & cost)
D={
'C01':('Every `OnPrintToFile` of a node class is interpreted and yields entries (attribute name, member, conversion, condition under which it is written); every `OnReadFromNode` yields (name, member, conversion, condition, default). Obligations: the written attribute is read (`readback`), into the same member through the inverse conversion (`member`), whenever it was written (`write-condition`, `read-condition`, `store-condition`), and is not overwritten afterwards (`kept`).','The oracle is the pair itself: writer against reader.'),
'C02':('Same tables for children: list member, parent node name, node name and class per written and read child; order of the walk and of the insertion; the class created must be the class that wrote the node.','Writer against reader; `construction` checks that the read object is constructed with the arguments its class needs.'),
'C03':('The MVR counterpart of C01 (`lib/mmodel.py`): attributes and element texts of scene objects, including composed texts (matrices, formatted channel lists) with separators, defaults that are skipped on writing must be restored on reading.','Writer against reader; facts that hold for all elements of a list are kept apart from facts about one field.'),
'C04':('Every enumerator of every enumeration saved as text is propagated as a constant through the writing converter; the resulting text is propagated through the reading converter.','Result must be the same enumerator, texts must differ pairwise, the reader must not report an error for it. Tables, maps and switch chains are folded by the engine.'),
'C05':('The lists of mandatory and optional attribute names given to the node check are computed by dataflow and compared with the tables of C01.','A written or read attribute must be listed; a mandatory one must be written on every path; the check must run on every path of reading. The check function itself is followed as well: it may leave its lists early only when nothing is left to check or a match was found, and keeps no error back because of a number.'),
'C06':('A text no converter knows is propagated through every converter; every `return false` and default branch must lie behind a recorded parsing error; the error must be appended on every path (`recorded`).','Must-analysis on branch facts. Known findings: GDTF fields for which the library deliberately takes a default or refuses the whole file.'),
'C07':('Every member that is saved as a reference text: which member receives a looked-up object, found by which key in which collection, on which walk over which owners (`lib/links.py`).','Key must be the unresolved text of the same member, the collection the one of the referenced kind, every owner visited, a missing object reported. A walk over objects that hold links may only end when loading is aborted (a search may end at its match), and objects are looked up by node references only after the links these are made from are resolved.'),
'C08':('For each `SetX`/`GetX` pair of an interface: the member and conversion a setter stores, the member and conversion the getter returns, the paths on which the call answers success.','Same member, inverse conversion, no narrowing, nothing else changed, result filled on success, getter does not change the model, no pointer to a local copy.'),
'C09':('Every interface method is interpreted with the wrapper pointer null (model accessors inlined).','No dereference of the pointer may be reached before the null test.'),
'C10':('Every element access in an interface method whose index comes from a parameter.','Branch facts on every path to the access must bound the index by the size of the same list (and by 0 for signed ones); the refusing branch must answer an error.'),
'C11':('The interface factory (`VWQueryInterface`) and the identifiers (`VWIID`) folded to constants.','Pairwise distinct; each identifier creates the class that implements the interface the identifier is declared for; the wrapper is initialised.'),
'C12':('Provenance of the list counted by `GetXCount`, indexed by `GetXAt`, appended by `CreateX` and of the object a wrapper is set to.','Same list; returned wrapper stands for that element; all arguments of the creation reach the element.'),
'C14':('All thread roots (std::thread, async, io_context handlers, mDNS callbacks, API calls) of src/mvrxchange; each is interpreted with the set of locks held.','Every member touched by two roots that can run at the same time has one lock common to all accesses (one a write), lock objects own the mutex they are used with, lock order graph has no cycle, no lock is taken twice, no callback of the application under a lock it could take again.'),
'C15':('Typestate of threads, stop flags, io_contexts, futures and network handlers on every path.','Every started thread is stopped and joined before its object or a restart; loops of threads read a flag or context that the stop path sets; waits have a condition and every waiter is woken; a handler re-arms or closes on every path, buffers outlive the operation.'),
'C16':('The JSON writer of each message type against its reader: fields, types, conditions, lists, conversions of uuids.','Everything the reader insists on is always written with the kind it checks; each field of the message struct goes out and back in; wrong kinds are refused, not thrown.'),
'C17':('Exception sources (throwing library calls, `throw`) propagated over the call graph to API methods, thread bodies and handlers; positions given to `substr`/`at`/`erase`/`insert` decided by `lib/zone.py`.','Caught by a handler covering the type, or the position provably within the size in every calling context.'),
'C23':('State of the pointer to the list of parsing errors along all reading paths.','Set to the list of the fixture before anything is read, stays so until all is read, not left behind. Inside the reading functions the list may only be emptied before the first call that can find an error.'),
'C18':('Every index, `front`/`back`/`pop`, raw copy and pointer+length text in own code (3287 obligations, 163 undecided); class invariants (`length <= allocated`, equal sizes) proved inductively over all writers, private helpers followed in their callers.','Index below the length / container non-empty / bytes within the extent at the access, or at every call of the helper (`lib/zone.py`, `rules/c18.py`). Wrapped unsigned differences, products and unknown functions make an access undecided, never a violation.'),
'C13':('Every function that fills, obtains, counts or releases an interface pointer (API wrappers, factory, smart pointer, file and XML wrappers), each path; every AddRef and Release.','Typestate per object (references owned against pointers that own one) on every path, own callees inlined three deep, conditions remembered so that correlated tests agree; counting functions propagated for 1 to 3 references (`rules/c13.py`).'),
'C31':('Every address or text that is returned, stored or kept, every range loop, every asynchronous operation with its handler and memory.','What the pointer points into (member, parameter, static, heap: fine; local or temporary: violation), with result-points-into-argument summaries; handlers capture a shared pointer to the session and what holds the buffer (`rules/c31.py`).'),
'C34':('Every scalar, pointer and enumerator member of every own class with every constructor (nested parts included); every read of every scalar local.','Must-initialised on all paths: in-class initialiser, initialiser list, body, callee that certainly sets it (`rules/c34.py`). A result of a filling call that nobody looks at does not count unless the callee fills on all paths.'),
'C22':('The functions on the call chain from Close, OpenForRead and ReadFromFile (virtual calls resolved to all overriders) down to the system calls, and in them every call that can fail.','One call at a time is assumed to fail; on every path to an exit the function must then answer with a failure value (`rules/c22.py`). Failure values and short counts are followed through variables, comparisons, `|=`, `&&`, `?:`; a void function on the way is a violation.'),
'C25':('Every keyed look-up with an index: what fills the index (all elements, first wins, same key text), when it is rebuilt, the scan used instead.','Index and scan must have the same collection, key, precedence; hash and equality of the key type agree. The texts elements are entered under are final: the links a node reference is made from are resolved before the index is filled; and an element is entered whatever its own lists hold.'),
'C26':('Every downcast of an object with several possible classes with every path to it (helpers up to three calls deep walked in place), every downcast of an interface with one implementation, every interface id and every request for one, every constant GetObjectType.','Set of possible classes of each object along each path, cut by type tests, wrapper kinds (pairs of kind and pointer member derived from the setter), checked casts, and what lists, members and functions hold or return; the cast is a violation when a class that is not of the target remains. What VWQueryInterface creates for an id must be of the interface it is used as (`rules/c26.py`).'),
'C27':('Every loop over a container; effect summaries of its body and all callees.','No insertion, removal or replacement on the walked container path.'),
'C28':('Same as C07 for MVR: link table of scene references against the lists that reading fills, walk over all objects.','Object with the same uuid, from a list that holds all such objects, after everything was read, for every owner. Iterator loops are followed like range loops.'),
'C29':('Provenance of every written and read scene object: node, parent, list, class, order.','Writer against reader as in C02, for the object tree and the auxiliary data.'),
}
