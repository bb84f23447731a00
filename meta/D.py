from meta import P
P('D01', 'Objects survive serialization, and truncated files stay readable',
  'Any object written to a block set or a BOIO file is read back equal: same types, shapes, bits, ids and nesting, whether or not its parts were unpacked in between, and the original is not changed by it. '
  'A file whose writer died at any byte yields exactly the objects that were complete, then a clean end or an error, and never a phantom object or a crash.',
  ['inputs', 'crash_points'], 'every object (all element types, ranks, strings, vectors, lists, records, MEQ objects, messages), every order of lazy unpacking, every truncation point',
  'the DMI test programs serialize one fixed record each; no test reads a truncated file or re-serializes half-unpacked objects',
  ['DMI/src/BOIO.cc', 'DMI/src/Record.cc', 'DMI/src/Vec.cc', 'DMI/src/List.cc', 'DMI/src/NumArray.cc', 'DMI/src/HIID.cc', 'OCTOPUSSY/src/Message.cc'],
  [('block layout', 'DMI toBlock/fromBlock'), ('lazy unpacking', 'DMI/src/Record.cc Field::makeObject; DMI/src/Vec.cc'), ('file framing', 'DMI/src/BOIO.cc readAny, nextType')],
  'round-trip monitoring of random objects and truncated files, under ASan+UBSan',
  'Bitwise comparison of the python view of each object before and after; truncation at every byte of small files and around every boundary plus 200 random points of larger ones. Corruption other than truncation is not covered.',
  'Random nested objects of every kind; serialized twice, before and after being looked at; written in two goes (append); files cut and read to the end and beyond.')
P('D03', 'Copies are independent: writing through one reference never shows in another',
  'After copying, privatizing, inserting, replacing, transferring, removing, merging or serializing objects, every live reference denotes exactly the value it would have if each copy had been a deep one: '
  'a write through one reference, or through a container holding it, is never visible through another and never lost. List indices count from either end, and an index outside the list is refused.',
  ['programs', 'histories'], 'every history of reference and container operations on shared nested records, lists, vectors and arrays',
  'sharing depends on the whole history of an object graph; the tests check a few fixed sequences of three or four operations',
  ['DMI/src/CountedRefBase.cc', 'DMI/src/Record.cc', 'DMI/src/List.cc', 'DMI/src/Vec.cc', 'DMI/src/NumArray.cc', 'DMI/src/Container.cc', 'DMI/src/BlockSet.cc'],
  [('copy-on-write', 'DMI/src/CountedRefBase.cc privatize, dewr'), ('cloning of containers', 'cloneOther of Record, List, Vec, NumArray'), ('shared blocks', 'DMI/src/BlockSet.cc pushCopy')],
  'model-based monitoring of random operation histories, under ASan+UBSan',
  'All live references are compared with a deep-copy model after every operation; memory errors and use after free are caught by ASan.',
  'Pool of up to 9 references, 10-60 operations: copy, privatize to any depth, get for reading or writing, assign by copy or transfer, list insert/replace/append, overwrite scalars and elements, remove, merge, serialize, write to the python copy.')
P('Y01', 'Values cross between python and the kernel unchanged',
  'A python value of a supported type given to the kernel comes back with the same value and type, up to documented normalizations (sequences of one type become tuples, one-element arrays scalars, field names lower case), and neither side can change the copy of the other; what cannot be represented is refused. '
  'Records from the kernel behave like dictionaries whatever has been converted, and hierarchical ids parse, print, concatenate and match by one set of rules on both sides.',
  ['inputs', 'programs'], 'every value, every sequence of operations on a record, every id',
  'the tests only pass well-formed records through in one direction; lazy conversion makes the outcome depend on which fields were touched first',
  ['OCTOPython/src/DataConv.cc', 'OCTOPython/src/dmi.py', 'OCTOPython/src/octopython.cc', 'DMI/src/HIID.cc'],
  [('conversion', 'OCTOPython/src/DataConv.cc pyToDMI, pyFromDMI'), ('lazy fields', 'OCTOPython/src/dmi.py record'), ('ids', 'DMI/src/HIID.cc addString, toString, matches')],
  'round-trip and model-based monitoring of random values, records and ids, under ASan+UBSan',
  'Values are compared bitwise; records next to a plain dict; ids against a model of their syntax and matching rules. Record fields of types DMI does not support are dropped by design and not generated; strings hold no NUL.',
  'Random values of all kinds through dm_new/dm_py (the conversions the kernel uses); 3-20 operations per record; ids with wildcards, numbers, empty and unknown elements.')
