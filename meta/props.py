NOTES = 'All checks read one set of facts that tool/extract.cpp (clang libtooling) extracts from the current sources of /repo with the real build flags; nothing of /repo is executed. No hooks are used.'
PROPS = []
NA = []


def prop(id, title, statement, over, quant, why, files, mech, technique, note):
    PROPS.append(dict(id=id, title=title, statement=statement, over=over, quant=quant, why=why, files=files, mech=mech, technique=technique, note=note))


def na(id, title, statement, over, quant, why, files, mech, reason):
    NA.append(dict(id=id, title=title, statement=statement, over=over, quant=quant, why=why, files=files, mech=mech, reason=reason))


ENGINE = 'Flow-sensitive, inlining, interprocedural term dataflow over the clang AST of the real build; sound up to the modelled constructs (loops joined, unknown calls uninterpreted). Undecided constructs are listed in the evidence, never counted as held.'
CONC = 'Abstract interpretation of each thread root over the clang AST: locks held, lock objects, joined state of thread members, stop flags; calls into the analysed files are walked in place. Members of distinct objects of one class are not told apart; objects handed between threads by the libraries used (asio, mdns) are assumed synchronised by them.'

prop('C01', 'Every GDTF attribute that is saved loads back into the member it came from',
     'For every kind of GDTF description node, an attribute written when a fixture type is saved is read on load under the same name, into the same member, through the inverse conversion. The attribute is read whenever it was written: no condition on the reading side is stricter than the condition under which it was written, and no attribute that is read is left unwritten.',
     ['inputs', 'histories'], 'every node class, every attribute it writes or reads, every combination of member values and every branch of the writer and reader',
     'The round-trip tests save and load a handful of fixtures whose members are mostly set; an attribute swapped, dropped or guarded for a value combination no test builds goes unseen.',
     ['src/GDTFManager.cpp', 'src/GDTFManager.h'],
     [('attribute writers', 'every OnPrintToFile in src/GDTFManager.cpp'), ('attribute readers', 'every OnReadFromNode in src/GDTFManager.cpp'), ('attribute names', 'src/Prefix/CommonPrefix.h'), ('text conversions', 'src/GDTFManager.cpp GdtfConverter')],
     'interprocedural dataflow: write tables vs. read tables per node class', ENGINE)

prop('C02', 'Every GDTF child node that is saved loads back into the same list, in order',
     'For every kind of GDTF description node, each child object that is saved is found again on load under the same parent node and node name, recreated as the same kind of object and kept in the same list in document order. No child is kept or dropped depending on anything but the presence of its node.',
     ['inputs', 'histories'], 'every parent/child relation between node classes, every branch of writer and reader, lists of any length',
     'Tests hold one or two children of most kinds and none of some; a list read from the wrong node, stored in the wrong member, reversed or conditionally skipped is invisible to them.',
     ['src/GDTFManager.cpp', 'src/GDTFManager.h'],
     [('child writers', 'WriteToNode calls in every OnPrintToFile of src/GDTFManager.cpp'), ('child readers', 'TraverseNodes/ReadFromNode in every OnReadFromNode of src/GDTFManager.cpp')],
     'interprocedural dataflow: provenance of every written and read child object', ENGINE)

prop('C03', 'Every saved property of an MVR object loads back into its own member',
     'For every kind of MVR scene object (layers, groups, fixtures, focus points, trusses, supports, screens, projectors, scenery, symbols, geometries, positions, classes, mapping definitions, sources, projections, alignments, custom commands, overwrites, connections, user data), an attribute or element text written when a scene is saved is read on load from the element of the same name, into the same member, through the inverse conversion. It is read whenever it was written: no condition on the reading side is stricter than the condition of the writing side, and nothing that is read is left unwritten. A transformation matrix may only be left out when all its rows are those of the identity.',
     ['inputs', 'histories'], 'every scene object class, every attribute and element it writes or reads, every combination of member values and every branch of the writer and reader',
     'The unit tests save and load one scene and compare a part of the properties of a few objects; an element swapped, dropped or guarded for a value combination that scene does not hold goes unseen.',
     ['src/SceneDataExchange.cpp', 'src/SceneDataExchange.h'],
     [('element writers', 'every OnPrintToFile in src/SceneDataExchange.cpp'), ('element readers', 'every OnReadFromNode in src/SceneDataExchange.cpp'), ('element names', 'src/Prefix/CommonPrefix.h'), ('text conversions', 'src/GDTFManager.cpp GdtfConverter')],
     'interprocedural dataflow: write tables vs. read tables per scene object class', ENGINE)

prop('C05', 'A GDTF node never reports an error for attributes the library itself writes',
     'After a GDTF description node is read, its attributes are checked once against the list of mandatory and optional attributes of that node. Every attribute the library writes or reads for a node is on that list, every mandatory attribute is always written on save, and every attribute on the list is read. So a file written by the library loads without attribute errors and an attribute accepted without complaint is not silently ignored.',
     ['inputs', 'histories'], 'every node class and every branch of its writer, reader and attribute check',
     'Parsing errors are recorded, not fatal, and few tests look at them; an attribute missing from a list only matters for the node kinds and values no test writes.',
     ['src/GDTFManager.cpp', 'src/GDTFManager.h'],
     [('attribute checks', 'every OnErrorCheck in src/GDTFManager.cpp'), ('check call', 'GdtfObject::ReadFromNode, GdtfObject::CheckNodeAttributes in src/GDTFManager.cpp')],
     'dataflow: contents of the mandatory and optional lists against write and read tables', ENGINE)

prop('C04', 'Enumerators and their texts convert both ways without loss',
     'For every enumeration that GDTF and MVR files store as text: each enumerator, passed to the conversion to text, gives exactly one text; that text, passed to the conversion from text of the same enumeration, gives the same enumerator back (so no two enumerators share a text, also not in another case), is accepted, and reports no parsing error. The same holds for the two truth values.',
     ['inputs'], 'every enumerator of every enumeration with a conversion in both directions',
     'Tests write the few enumerators a sample file needs; a text missing, misspelt or shared by two of some hundred enumerators shows only for that value.',
     ['src/XmlFileHelper.cpp', 'src/Prefix/CommonPrefix.h', 'src/Include/GDTFPrefix.h'],
     [('converters', 'GdtfConverter::Convert... in src/XmlFileHelper.cpp'), ('texts', 'XML_ constants in src/Prefix/CommonPrefix.h')],
     'constant propagation of every enumerator through both converters', ENGINE)

prop('C06', 'Texts that cannot be converted are reported as parsing errors',
     'While a GDTF file is read, a text that is none of the known values of an enumeration makes its converter record a parsing error, of the documented kind where one is documented for that enumeration; a converter that refuses a text that is not empty has recorded an error on that path; and an error object that the library makes is recorded on every path.',
     ['inputs'], 'every converter from text used for GDTF files, every path of it; every place that makes a parsing error',
     'Tests feed a handful of broken values; a converter that silently substitutes a default for some texts produces no visible failure.',
     ['src/XmlFileHelper.cpp', 'src/GDTFManager.cpp', 'src/Include/GDTFPrefix.h'],
     [('converters', 'GdtfConverter::Convert... in src/XmlFileHelper.cpp'), ('errors', 'GdtfParsingError objects in src/GDTFManager.cpp and src/XmlFileHelper.cpp')],
     'constant propagation of an unknown text; must-analysis of error reports before refusing returns', ENGINE)

prop('C23', 'Parsing errors are kept with the fixture that was being read',
     'While a fixture is read from an archive its own error list takes every parsing error from the first call that can find one; when the reading function returns, on whatever path, no list takes errors any more; AddError adds exactly the error it is given whenever a list takes errors; and errors that were found are not removed afterwards.',
     ['inputs', 'histories'], 'every path of the reading function, every call below it that can report an error',
     'Tests read one fixture after another with good archives; an early return on a damaged archive makes the errors of the next fixture appear in the list of a destroyed one.',
     ['src/GDTFManager.cpp'],
     [('reader', 'GdtfFixture::ImportFromZip in src/GDTFManager.cpp'), ('errors', 'GdtfFixture::AddError in src/GDTFManager.cpp')],
     'must-analysis of the error list pointer over all paths', ENGINE)

prop('C07', 'Every reference in a GDTF file resolves to the named object or is reported',
     'After a GDTF file is read, every stored reference text is resolved for every object that holds one: the link member is set to the object of the right kind whose own node reference equals the text, searched in the collection of the same fixture type. Resolution does not depend on any other attribute of the object. A reference text that names nothing leaves the link empty and, for the reference kinds with an error code of their own, records exactly that error.',
     ['inputs', 'histories'], 'every reference member of every node class, every resolving function and every branch in it',
     'The tests resolve a handful of fixtures in which all references exist; dangling references, objects of unusual kinds and objects lacking other attributes are not built.',
     ['src/GDTFManager.cpp', 'src/GDTFManager.h'],
     [('resolution', 'GdtfFixture::ResolveAllReferences and the Resolve*/get*ByRef functions in src/GDTFManager.cpp')],
     'interprocedural dataflow: link table of resolved members (value, key, collection, branch facts)', ENGINE)

prop('C08', 'API getters return what the setter of the same name stored',
     'For every object handed out by the public API (the wrappers of GDTF nodes, MVR scene objects and helper objects), a Set method stores the value the caller passes, unconditionally on success, in the property it names and changes no other property that has its own setter; the Get method of that name returns this value unchanged (the same member, the conversion that undoes the setter, no lossy numeric cast, no substitute value) and changes nothing itself. A Get or Set method returns success only after it stored or returned the value, and a value that was set can be read back.',
     ['inputs', 'histories'], 'every pair of Get and Set methods of every API wrapper class with the model accessors they call, for all values and on all their branches',
     'The unit tests set and get some properties of some classes with one value each; a setter that writes the wrong member or its own argument, or a getter of a rarely used property, is not called at all.',
     ['src/Implementation', 'src/GDTFManager.cpp', 'src/SceneDataExchange.cpp'],
     [('API methods', 'every VCOM_CALLTYPE Get*/Set* method of the wrapper classes in src/Implementation'), ('model accessors', 'Get*/Set* of the classes in src/GDTFManager.h and src/SceneDataExchange.h'), ('colour and matrix conversion', 'src/Utility.cpp GdtfUtil')],
     'interprocedural dataflow: member and value of every setter against every getter', ENGINE)

prop('C09', 'API objects without a model object answer with an error',
     'Every method of a public API wrapper that uses its pointer to the model object (a GDTF node, an MVR scene object, a fixture type), or that of an API object passed in as an argument, does so only where that pointer was tested to be set; where it is not set the method returns an error instead of following the null pointer or reporting success.',
     ['inputs', 'histories'], 'every interface method of every API wrapper class and every path through it and the model accessors it calls',
     'Tests only use objects that were created or found; an empty wrapper from VWQueryInterface or a failed look-up is passed only by erroneous or unlucky callers.',
     ['src/Implementation'],
     [('API methods', 'every interface method of the wrapper classes in src/Implementation')],
     'flow-sensitive null-state analysis of the wrapper pointers with model accessors inlined', ENGINE)

prop('C10', 'API element access checks the index against the list it reads',
     'A method of the public API that takes an index accesses a list with that index only where the index was compared to be smaller than the size of that same list (or of a list kept parallel to it); for any other index it returns an error, and it never reports success for an index out of range.',
     ['inputs'], 'every interface method with an index parameter of every API wrapper class, all index values, lists of every length',
     'Tests walk lists from 0 to the count the library reports; an index equal to the count or beyond is never passed, and reading past a vector may go unnoticed.',
     ['src/Implementation', 'src/GDTFManager.h', 'src/SceneDataExchange.h'],
     [('element access', 'every Get...At method of the wrapper classes in src/Implementation')],
     'flow-sensitive bound analysis: branch facts on the index at each element access', ENGINE)

prop('C11', 'Interface identifiers are distinct and answered by the class they stand for',
     'Every interface identifier of the public API differs from every other one, two identifiers compare equal only when all their parts are equal, and VWQueryInterface answers each identifier that the API hands out objects for with a new object of exactly one class, which implements the interface the identifier was declared with, is the class every caller takes the result for, and is stored in the out parameter.',
     ['inputs'], 'every interface identifier and every request for an API object in the library',
     'Tests query a part of the identifiers and would not notice two identifiers that share a value or an object of a class that only happens to have the same layout.',
     ['src/ModuleMain.cpp', 'src/Include', 'src/Implementation'],
     [('factory', 'VWQueryInterface in src/ModuleMain.cpp'), ('identifiers', 'IID_ constants in src/Include/IMediaRessourceVectorInterface.h, src/Include/IFileIdentifier.h and others'), ('comparison', 'VWIID::operator== in src/Include/VectorworksMVR.h')],
     'interprocedural dataflow over the factory and constant evaluation of identifiers', ENGINE)

prop('C12', 'Count, element access and creation of an API list work on the same list',
     'For every list of an API class: Count reports the size of the list whose element At hands out at exactly the index it was given, and Create or Add appends to that list in every case it returns success, whatever the list already holds. What Create hands out stands for the object it appended, every argument it takes is used, and ends up in the member that the setter and getter of that name work on. Whenever a method that hands out an API object returns success, it has set the out parameter to an object that was given its model object.',
     ['inputs', 'histories'], 'every list, creation and object-returning method of every API wrapper class',
     'Tests create one or two elements with distinct names and read them back; an element dropped for a second equal one, an argument stored in a neighbouring member, or a list method reading a sibling list can stay unseen.',
     ['src/Implementation', 'src/GDTFManager.cpp', 'src/SceneDataExchange.cpp'],
     [('list methods', 'GetCount..., Get...At, Create..., Add... of the wrapper classes in src/Implementation'), ('model', 'Add... and Create... in src/GDTFManager.cpp and src/SceneDataExchange.cpp')],
     'interprocedural provenance of counted, indexed, appended and handed-out objects', ENGINE)

prop('C14', 'MVR-xchange state shared between threads is only touched under its lock',
     'While an MVR-xchange service runs, the thread of the application, the accept and read threads of the TCP server and the thread of the mDNS query run at once. Every member of the service, the server and a session that more than one of them can reach while one of them changes it is protected: all its accesses hold one common mutex, or it is an atomic, or it is only changed while the other threads are not running (before they are started, after they were joined). A lock object owns the mutex it stands for as long as the protected access lasts. Locks are always taken in one order, none is taken a second time by its holder, and no lock that the API of the service takes is held while a callback of the application runs.',
     ['schedules', 'histories'], 'every member of every class that owns threads or mutexes, every pair of accesses from different threads, every path of every thread, handler and API method, any interleaving',
     'The tests start a client and a server on one machine and exchange a few messages; a race or an inverted lock order needs two threads inside the same few instructions, which no test can arrange.',
     ['src/mvrxchange'],
     [('service', 'CMVRxchangeServiceImpl in src/mvrxchange/CMVRxchangeService.cpp'), ('server and sessions', 'MVRxchangeServer in src/mvrxchange/mvrxchange_server.cpp, MVRxchangeSession in src/mvrxchange/mvrxchange_session.cpp'), ('mutexes', 'fMvrGroupMutex, fCallBackMutex, fQueryLocalServicesResult_mtx in src/mvrxchange/mvrxchange_service.h; fSessionMutex in src/mvrxchange/mvrxchange_server.h')],
     'lockset and lock-order analysis over every thread root, with thread lifetime typestate', CONC)

prop('C15', 'MVR-xchange threads, waits and network handlers come to an end and are answered',
     'A thread of MVR-xchange is joined before its member is assigned again and before its owner is destroyed; what it waits for (stop flag, io_context) is told to stop before every join and is cleared before the thread is started again. Waits on a condition have a condition that is re-checked, and hold no other lock. What a handler that runs later uses (captured locals, buffers passed to asynchronous reads and writes) lives until it has run. Every network handler looks at its error code before it uses the result: a cancelled timer does nothing, a failed accept leaves the socket alone but accepts again, a failed read or write closes the session, and every successful read goes on to the next read or closes the session.',
     ['schedules', 'histories'], 'every std::thread member, wait, asynchronous operation and handler below src/mvrxchange, every path of them, every order of API calls',
     'Tests run one start, exchange and stop; a thread left running, a wait that misses its notification or a handler that stops listening after an error needs a schedule or a network fault they do not produce.',
     ['src/mvrxchange'],
     [('threads', 'TCP_Start, TCP_Stop, mDNS_Client_Start, mDNS_Client_Stop in src/mvrxchange/CMVRxchangeService.cpp; MVRxchangeServer::Start and Stop in src/mvrxchange/mvrxchange_server.cpp'), ('handlers', 'MVRxchangeServer::DoAccept, MVRxchangeSession::DoRead, MVRxchangeSession::Deliver, CMVRxchangeServiceImpl::mDNS_Client_Tick'), ('wait', 'CMVRxchangeServiceImpl::QueryLocalServices')],
     'typestate of threads, flags, io_contexts and handlers along every path', CONC)

prop('C16', 'An MVR-xchange message that is sent is read back as the same message',
     'For every message type, turning a message into JSON and reading that JSON back gives the same message. The type text written for a type is the one read back as that type, and no two types share a text. Every value that is transmitted is read from the field it was written to into the member it came from, on every path of the reader that ends without an error, without an integer being narrowed; lists arrive with all their elements in order, uuids with their four parts in place. Every field written is read, every field the reader insists on is always written. Unknown types, missing or unreadable station and file uuids and missing required fields are reported as an error rather than read as another message. Received messages have the effect their type says: MVR_JOIN adds the sending station to the group, MVR_LEAVE removes the station with the uuid in the message, no other type changes who is in the group, and every message is handed to the callback of the application.',
     ['inputs', 'histories'], 'every message type, every transmitted member, every path of the writer and the reader of MVR-xchange JSON, every branch of the handler of received messages',
     'The tests send a few messages with typical values and compare few members; swapped fields, a narrowed size or a missing error only show for the member, type or broken message nobody sends.',
     ['src/mvrxchange/mvrxchange_message.cpp', 'src/mvrxchange/CMVRxchangeService.cpp'],
     [('writer and reader', 'MVRxchangePacket::FromExternalMessage, MVRxchangePacket::ToExternalMessage and the per-type helpers in src/mvrxchange/mvrxchange_message.cpp'), ('handler', 'CMVRxchangeServiceImpl::TCP_OnIncommingMessage in src/mvrxchange/CMVRxchangeService.cpp')],
     'path-sensitive dataflow of the JSON writer against the reader', 'Values are followed through the JSON library by its field keys; the JSON library itself, its number and text encoding and the network below are taken as they are. What a station does with a message beyond the group of stations and the callback is not looked at.')

prop('C17', 'No exception leaves an API call, a thread or a network handler',
     'Whatever a file, a peer, a text or an index contains, no C++ exception leaves a method of the public interfaces or an exported function, and none leaves a thread function or an asynchronous network handler of MVR-xchange (which would end the process). Every call that can raise an exception for some input (number conversion of a text with std::sto*, parsing, reading or dumping of JSON, boost.asio without an error code, text conversion with wstring_convert, .at() and the text positions of substr, insert, erase, replace and compare, calling a std::function, throw, dynamic_cast to a reference) is caught with a type that covers it somewhere on every call path from there, or it is shown that it does not throw on any path: positions are compared with the length before they are used, converters are made with error texts, std::function objects are tested before they are called, JSON is only built into values that were not read from a text.',
     ['inputs', 'histories'], 'every throwing call, cast and throw statement in a function of the library, on every call path from there to an interface method, an exported function, a thread function or an asynchronous handler',
     'A caller in another module cannot catch C++ exceptions of this library and an exception in a thread ends the process; which text, index or message triggers one cannot be enumerated by tests.',
     ['src/GSString.cpp', 'src/mvrxchange/mvrxchange_message.cpp', 'src/mvrxchange/CMVRxchangeService.cpp', 'src/GDTFManager.cpp', 'src/Implementation'],
     [('texts', 'positions and converters in src/GSString.cpp'), ('peers', 'MVRxchangePacket::ToExternalMessage, the mDNS reply handler and the session and server handlers in src/mvrxchange'), ('files', 'GdtfFixture::ImportFromZip and the converters of src/XmlFileHelper.cpp'), ('indexes', 'Get...At of src/Implementation')],
     'interprocedural exception-escape analysis with a difference-bound proof for positions', 'Exceptions are propagated over the call graph to the handlers that cover their type; positions are decided by the integer relations that hold at the call (difference bounds), in terms of the callers where a helper leaves it open. Failures of the machine (no memory, no thread, no socket) are not covered.')

prop('C18', 'Elements, ends and raw copies stay inside their container or buffer',
     'Whatever a file, an archive, a peer or a caller supplies, the library\'s own code reads and writes elements by index (operator[] of arrays, std::vector, std::string, std::array, buffers) only below the length, asks only non-empty containers for front, back, pop_back, top or pop, and moves with memcpy, memmove, memset, memcmp, strncpy, snprintf and the Read functions of the file classes, or makes texts from a pointer and a length, no more bytes than the source and the destination have where their extent is known. Members that say how long a buffer is never say more than was allocated: in ZIPFileBuffer, CZIPFileIOBufferImpl, ISceneDataZipBuffer, IXMLFileIOBufferImpl and MVRxchangeDynamicBuffer every function keeps length <= allocated. Parallel arrays used with one index (the keys and values of a data provider) grow together.',
     ['inputs', 'histories'], 'every element access, end access and raw copy in the library (third-party code, mdns_cpp, sha256 and JSON excluded), for every length, index and content that can reach it',
     'An access one past the end usually changes nothing a test can see; which numbers of channel sets, logical channels, breaks, archive entry sizes or message lengths reach it cannot be enumerated.',
     ['src/GDTFManager.cpp', 'src/SceneDataExchange.cpp', 'src/GSString.cpp', 'src/XmlFileHelper.cpp', 'src/Wrapper/ZIPFileImpl.cpp', 'src/Wrapper/ZIPFileBuffer.cpp', 'src/mvrxchange/mvrxchange_dynamic_buffer.cpp', 'src/mvrxchange/mvrxchange_message.cpp'],
     [('channel sets, functions, breaks', 'GdtfDmxChannel, GdtfDmxMode and GdtfFixture in src/GDTFManager.cpp'), ('archives', 'ZIPFileBuffer::Read/Write, CZIPFileImpl::GetNextFile, CZIPFileIOBufferImpl::AppendData'), ('packets', 'MVRxchangeDynamicBuffer and MVRxchangePacket'), ('texts', 'src/GSString.cpp')],
     'difference-bound analysis with inductive class invariants', 'Integer relations (difference bounds and short linear forms) at each access, with class invariants proved over all functions that write the members, and obligations a helper leaves open decided at its calls. Where the position or extent comes from a product, quotient or an unknown function the access is listed as undecided in the evidence.')

prop('C13', 'API objects are counted: handed out owned once, replaced ones released',
     'Every function of the API that fills an interface pointer does so by one protocol: on success the caller owns exactly one reference to a new object, an object the pointer held before was released exactly once, and a null out pointer is never followed; on failure the pointer is left null or holding an object that is still counted, never one that was released. An object obtained inside a function is handed out or released on every path, no function uses an interface pointer after its reference was given back, VCOMPtr counts what it holds once (copy, assignment, query, release), and AddRef and Release of every class change the count by one and delete the object exactly when the last reference goes.',
     ['inputs', 'histories'], 'every function that fills, obtains, counts or releases an interface pointer, on each of its paths; every AddRef and Release for 1, 2 and 3 references',
     'A leaked or doubly released object changes no result a test compares; it shows as growing memory or as a crash much later, and only on the paths (errors, reuse of a pointer) that tests do not walk.',
     ['src/Implementation', 'src/Wrapper', 'src/rapidxmlsupport', 'src/Include/VectorworksMVR.h', 'src/Prefix/StdAfx.h', 'src/ModuleMain.cpp'],
     [('out pointers', 'the Get and Create functions of the wrapper classes in src/Implementation'), ('factory', 'VWQueryInterface in src/ModuleMain.cpp'), ('smart pointer', 'VCOMPtr in src/Include/VectorworksMVR.h'), ('counters', 'VCOMImpl and VCOMImmediateImpl in src/Prefix/StdAfx.h, CXMLFileImpl and CXMLFileNodeImpl in src/rapidxmlsupport'), ('folders', 'CFolderIdentifier::EnumerateContentsHandler in src/Wrapper/FolderIdentifier.cpp')],
     'path-sensitive typestate analysis of interface pointers; constant propagation through the counting functions', 'Callees are followed three levels deep, virtual ones by the protocol above; loops are walked twice. Pointers kept in containers and in objects other than the smart pointer are not counted.')

prop('C31', 'Nothing handed out, kept or left running points to something that is gone',
     'No function of the library returns, stores in a member or through a pointer, or keeps in a local variable the address or text of a local variable or of a temporary object that ends before the pointer is used, and no loop walks a part of a temporary. What is given to an operation that finishes later (asynchronous reads and writes, posted work, timers) neither refers to locals of the function that started it nor to objects that nothing keeps alive: handlers of a shared session hold a shared pointer to it, and the memory a transfer uses is held by its handler.',
     ['inputs', 'schedules', 'histories'], 'every returned, stored or kept address, every range loop, every asynchronous operation and the handler and memory it is given, in every function of the library',
     'Memory that was just given back usually still holds the old bytes, so a test reads what it expects; it fails with other texts (longer than the small-string buffer), other allocations or another interleaving.',
     ['src/Implementation', 'src/GSString.h', 'src/GDTFManager.cpp', 'src/VWPoint2D.cpp', 'src/VWPoint3D.cpp', 'src/mvrxchange', 'src/Wrapper'],
     [('texts handed out', 'the getters returning MvrString in src/Implementation'), ('vectors', 'the normalising functions in src/VWPoint2D.cpp and src/VWPoint3D.cpp'), ('sessions', 'MVRxchangeSession and MVRxchangeClient in src/mvrxchange'), ('archives', 'src/Wrapper')],
     'escape and lifetime analysis over the syntax tree', 'Flow-insensitive origin of every pointer, with summaries of which callee results point into their arguments; memory released by an explicit delete is outside this property.')

prop('C34', 'Numbers, flags, enumerators and pointers are set before they are read',
     'Every member of a number, truth value, enumerator or pointer type (parts of nested structs and arrays included) of every class and struct of the library has a defined value as soon as its constructor has returned, whichever constructor is used and whichever path it takes: from an initialiser in the class, from the initialiser list, from the body or from a function called there. No function reads a local variable of such a type on a path on which nothing has given it a value; a variable handed to a call to be filled counts as filled only if that call fills it on each of its paths or its result is looked at.',
     ['inputs', 'histories'], 'every constructor of every class of the library (third-party code excluded) on each of its paths, every scalar local variable of every function on each path to a read',
     'Fresh memory is usually zero in a test run, so an unset member or local reads as the expected default; what it holds in a long-running application depends on what was freed before.',
     ['src/GDTFManager.cpp', 'src/GDTFManager.h', 'src/SceneDataExchange.cpp', 'src/SceneDataExchange.h', 'src/Implementation', 'src/mvrxchange', 'src/Wrapper'],
     [('model objects', 'the constructors in src/GDTFManager.cpp and src/SceneDataExchange.cpp'), ('API objects', 'the constructors of the wrapper classes in src/Implementation'), ('messages and services', 'the structs in src/mvrxchange'), ('archives and XML', 'src/Wrapper and src/rapidxmlsupport')],
     'definite-initialisation dataflow', 'Must-analysis over all paths of every constructor and function of the clang AST, with summaries of what a callee certainly sets. Locals that are only read under a question about another local set together with them are undecided.')

prop('C22', 'A file that cannot be written or read is reported',
     'If the archive file of a fixture type or scene cannot be opened, written or closed when it is saved, the public Close call reports a failure; if the file cannot be opened or read when it is loaded, OpenForRead or ReadFromFile reports a failure. On the whole way from these calls down to the system calls (fopen, fwrite, fclose, fseek, ftell, fread), no function drops the failure of a call it makes: on every path on which the call failed it answers with a failure itself. (Failures to add a single resource to an archive, or to unpack one, are not meant here.)',
     ['inputs', 'fault_sequences'], 'every function between the public save and load calls and the system calls, every call in them that can fail, every path after it failed',
     'The unit tests only save to and load from places that work; a full disk, a missing directory, a file without read permission or a failing flush never occurs in them.',
     ['src/Implementation/CGdtfFixture.cpp', 'src/Implementation/CMediaRessourceVectorImpl.cpp', 'src/SceneDataExchange.cpp', 'src/Wrapper/ZIPFileImpl.cpp', 'src/Wrapper/ZIPFileBuffer.cpp', 'src/Wrapper/RawOSFileimpl.cpp'],
     [('public calls', 'Close, OpenForRead and ReadFromFile of CGdtfFixtureImpl and CMediaRessourceVectorImpl'), ('system calls', 'CRawOSFileImpl in src/Wrapper/RawOSFileimpl.cpp'), ('between', 'ZIPFileBuffer::Open/Close, CZIPFileImpl::OpenRead/Close, SceneDataExchange::WriteToFile/ReadFromFile')],
     'path-sensitive failure propagation along the call chain', 'Each call that can fail is assumed to fail alone; a result that is combined in a way the analysis does not follow is reported as undecided. Failures while the XML text is produced or resources are added to the archive in memory are not followed.')

prop('C25', 'References resolve the same in large and in small fixture types and DMX modes',
     'For large fixture types and DMX modes references are looked up in keyed indexes, for small ones by walking the lists. Both give the same answer for every reference text: an index holds exactly the elements of the lists the walk searches, under the same text, the first of several equal elements wins in both, the index is rebuilt from empty before it is consulted, a walk never ends before a match, and text keys hash without regard to case just as they compare.',
     ['inputs', 'histories'], 'every keyed index, every look-up that consults it and the walk that replaces it',
     'The test fixtures are small; a large fixture with duplicate, differently cased or dangling names is needed to see a difference, and only for the one index that is wrong.',
     ['src/GDTFManager.cpp', 'src/GDTFManager.h', 'src/GSString.h'],
     [('indexes', 'GdtfFixture::BuildLookupIndexes, GdtfFixture::IndexGeometryTree, GdtfDmxMode::BuildModeIndexes in src/GDTFManager.cpp'), ('look-ups', 'GdtfFixture::get*ByRef, ResolveGeometryRef, ResolveDmxChannelRefs, GdtfDmxMode::Get*ByRef/Get*ByIndex in src/GDTFManager.cpp'), ('hash functors', 'TXStringNoCaseHash in src/GDTFManager.h, std::hash<TXString> in src/GSString.h')],
     'interprocedural dataflow: index contents against the alternative scan at every look-up', ENGINE)

prop('C26', 'Objects are used as what they are',
     'Whenever the library takes an object of a general kind for an object of a special kind (a downcast of a scene object, GDTF object, geometry or symbol to the class whose members are then used), the object is of that class on every path: the path tested its kind (object type, the kind kept in the wrapper, the symbol flag), the list or call it comes from only holds that class, or the cast itself checks. So no call of the public interface with an object of another kind, and no file with a reference to an object of another kind, makes the library read one class as another. Every class reports its own object type, every interface id is unique, and asking for an interface by id gives an object of the interface it is then used as.',
     ['inputs', 'histories'], 'every downcast below src/ on every path that leads to it, every interface id and every place that asks for one, every class that reports an object type',
     'A wrong class only shows when an object of another kind gets there (a laser asked for lamp data, a reference that names another kind of geometry), which no unit test does, and then often just reads plausible memory.',
     ['src/Implementation/CSceneObjImpl.cpp', 'src/Implementation/CGdtfGeometry.cpp', 'src/Implementation/CGeometryReferenceImpl.cpp', 'src/GDTFManager.cpp', 'src/SceneDataExchange.cpp', 'src/ModuleMain.cpp'],
     [('downcasts', 'static_cast to a derived class in src/Implementation, src/GDTFManager.cpp and src/SceneDataExchange.cpp'), ('kinds', 'GetObjectType of every class; fType, fGeometryType and fIsSymbol of the wrappers'), ('interface ids', 'VWQueryInterface in src/ModuleMain.cpp and every VWQueryInterface(IID_...) below src/')],
     'path-sensitive analysis of the set of classes an object can have', 'Objects handed to the library through an interface that has a single implementation are assumed to be of that implementation. A wrapper is assumed to be given only objects of the classes its setter has a kind for. Members are assumed not to change between a test and the cast that follows it in the same function.')

prop('C27', 'No list is changed while it is being walked',
     'While a loop walks over a list or map by range or iterator, neither the loop body nor anything it calls on the same object inserts into, erases from or replaces that list, unless the loop is left right after or the iterator is renewed. So no input can make the library use an invalid iterator.',
     ['inputs', 'histories'], 'every range or iterator loop of the library and every function reachable from its body on the same object',
     'The change only happens for rare data (a missing target, a missing default object) and usually goes unnoticed until the list reallocates.',
     ['src/GDTFManager.cpp', 'src/SceneDataExchange.cpp', 'src/mvrxchange/CMVRxchangeService.cpp', 'src/mvrxchange/mvrxchange_server.cpp'],
     [('loops', 'all range and iterator loops below src/'), ('examples', 'GdtfFixture::ResolveAttribRefs, SceneDataExchange::ReadFromGeneralSceneDescription')],
     'interprocedural effect analysis on access paths of containers', 'Effect summaries over member access paths (this-rooted, parameters, globals, local references); containers reached through pointers to other objects are only matched when the paths are equal.')

prop('C28', 'References between MVR scene objects lead to the object with the given uuid',
     'After an MVR file is read, every reference of a scene object that is saved as the uuid of another object (focus point and position of a fixture, class and multipatch parent of a placed object, symbol definition of a symbol, also of a symbol inside a symbol definition) points to the object of the file with that uuid. The search goes through all objects of the kind, is done for every object that can hold the reference whatever its other properties are, compares uuids regardless of case, and takes place only after the whole scene was read, so the order of the objects in the file does not matter.',
     ['inputs', 'histories'], 'every reference member of every scene object class, every order of objects in the file, every branch of the reader',
     'The unit tests link a few fixtures to a class, a position and a focus point; references of other kinds, forward references, references written in another case and combinations of missing references are not built.',
     ['src/SceneDataExchange.cpp', 'src/SceneDataExchange.h'],
     [('resolution', 'end of SceneDataExchange::ReadFromGeneralSceneDescription in src/SceneDataExchange.cpp'), ('object lists', 'SceneDataExchange::ReadChildObjs and the Read*Object functions in src/SceneDataExchange.cpp'), ('reference texts', 'OnPrintToFile/OnReadFromNode of SceneDataObj, SceneDataObjWithMatrix, SceneDataFixtureObj, SceneDataSymbolObj')],
     'interprocedural dataflow: link table of resolved members against the lists filled while reading', ENGINE)

prop('C29', 'Every object of an MVR scene that is saved loads back where it was',
     'Every object list of a scene (user data, layers, mapping definitions, positions, classes, symbol definitions) and every child list of a scene object is written in full and in order, and read back below the same element, under the same element name, as the same kind of object, with the same uuid, into the same list, in document order. Objects created through the exchange API are put into the lists that are written. Layers, groups, fixtures, trusses, supports, screens, projectors, scene objects and symbol definitions write and read their child objects for every kind that can hold children. The only object that is skipped is a group without children. Every attribute of the document root that is read is written.',
     ['inputs', 'histories'], 'every list of objects in the scene and in every scene object class, every kind of child, every branch of writer and reader, lists of any length',
     'The unit tests save and load one scene holding few kinds of objects and look them up by hand; a kind not written, a list read into the wrong place or skipped for some values is invisible to them.',
     ['src/SceneDataExchange.cpp', 'src/SceneDataExchange.h'],
     [('scene writer', 'SceneDataExchange::WriteXml, SceneDataExchange::WriteToFile in src/SceneDataExchange.cpp'), ('scene reader', 'SceneDataExchange::ReadFromGeneralSceneDescription in src/SceneDataExchange.cpp'), ('child lists', 'OnPrintToFile and OnReadFromNode of every SceneDataObj class')],
     'interprocedural dataflow: provenance of every written and read scene object', ENGINE)

# at most three sentences per statement
for _p in PROPS:
    _s = _p['statement'].rstrip('.').split('. ')
    if len(_s) > 3:
        _p['statement'] = '. '.join(_s[:2]) + '. ' + '; '.join([_s[2]] + [x[0].lower() + x[1:] if x[1:2].islower() else x for x in _s[3:]]) + '.'

na('C35', 'Numbers and matrices keep their value through a save and a load',
   'A floating point number, colour or transformation matrix that is saved in a GDTF or MVR file is read back within the precision of the text it is written as.',
   ['inputs'], 'every floating point value a member can hold', 'The tests compare a few round numbers; extreme magnitudes, many digits and rotated matrices are not tried.',
   ['src/GDTFManager.cpp', 'src/XmlFileHelper.cpp', 'src/SceneDataExchange.cpp'], [('number conversion', 'GdtfConverter::ConvertDouble, ConvertMatrix and the scene matrix conversion')],
   'The error depends on the digits printed and on rounding of runtime values; a static argument can show that the right conversion pair is used (C01, C03) but cannot bound its numerical error.')
na('C36', 'DMX values keep their meaning when they are scaled between resolutions',
   'A DMX value written with one byte count and read for a channel of another resolution is scaled (or shifted) to the value the GDTF standard prescribes, and default, start and end addresses computed from it do not overlap.',
   ['inputs'], 'every DMX value, byte count and channel resolution', 'The tests use values of one and two bytes.',
   ['src/GDTFManager.cpp', 'src/XmlFileHelper.cpp'], [('scaling', 'GdtfConverter::ConvertDMXValue and the address computation of the channel functions')],
   'This is integer arithmetic over runtime values; deciding it needs a solver or execution, which is another family of technique.')
na('C37', 'Reading any file comes to an end',
   'Reading a GDTF or MVR file ends for every content, whether its geometry references or symbol definitions form cycles or its nesting is deep, and uses memory in proportion to its size.',
   ['inputs'], 'every file', 'The tests read well-formed files only.',
   ['src/GDTFManager.cpp', 'src/SceneDataExchange.cpp', 'src/Wrapper/ZIPFileImpl.cpp'], [('recursion', 'geometry, break and group walks'), ('decompression', 'CZIPFileImpl')],
   'Termination and memory use depend on the shape of the data read (depth, cycles, compression ratio); no measure that decreases on every path can be read off the source without bounds that the code does not state.')
na('C38', 'Resources leave an archive byte for byte as they were put in',
   'The content of a file or buffer that is added to a GDTF or MVR archive is handed out unchanged, with all its bytes, after the archive was saved and opened again.',
   ['inputs'], 'every content and every archive size', 'The tests add a few small resources.',
   ['src/Wrapper/ZIPFileImpl.cpp', 'src/Wrapper/ZIPFileBuffer.cpp', 'src/Minizip'], [('compression', 'CZIPFileImpl::AddFile, ReadFile and the deflate code of minizip and zlib')],
   'Whether inflate undoes deflate is a property of the values of a third-party codec; the copies around it (lengths, buffers, failures) are decided by C18 and C22.')
na('C39', 'Stations of a group find each other',
   'Every station that joined an MVR-xchange group on the local network is discovered by the others, and a message sent to the group arrives at each of them as long as the network delivers it.',
   ['schedules', 'histories'], 'every order of joining, leaving, packet loss and delay', 'The tests start at most two services on one host.',
   ['src/mvrxchange'], [('discovery', 'mDNS queries of CMVRxchangeServiceImpl'), ('delivery', 'CMVRxchangeServiceImpl::Send_message')],
   'Discovery is the behaviour of the network, the operating system and a third-party mDNS library over time; the source of this library does not determine it.')
