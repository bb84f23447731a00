from meta import P
P('T01', 'A TDL script compiles to exactly the forest that it describes, or to nothing',
  'For every TDL script, the batch of init-records sent to the server has exactly the nodes that the script defines (directly, by arithmetic, or as constants and anonymous children), each with the class, fields, ordered or labelled children, step children and parents that were written, whatever the scopes, qualifiers and order of definition; sinks and spigots end up with the VisDataMux, and unreferenced orphans are trimmed if and only if that was asked for. '
  'A script with a mistake (an undefined, conflicting or cyclic node, a wrong argument, a python error) is refused with the place of the mistake and sends nothing; compiling is independent of what was compiled before. '
  'Searches find the nodes that match, and executing the forest yields the value of the expression that was written.',
  ['programs', 'inputs'], 'all scripts built from node definitions, scopes, qualifiers, operators, shared definitions, tags, options, orphans, sinks and spigots, with or without one mistake',
  'scripts compose naming, sharing and scoping in unbounded ways; the tests compile none',
  ['PyApps/src/TDL/TDLimpl.py', 'PyApps/src/TDL/Compile.py', 'PyApps/src/TDL/MeqClasses.py'],
  [('names and binding', 'PyApps/src/TDL/TDLimpl.py _NodeStub, NodeScope'), ('anonymous nodes', 'PyApps/src/TDL/TDLimpl.py _NodeDef.autodefine'), ('final forest', 'PyApps/src/TDL/TDLimpl.py _NodeRepository.resolve'), ('compiler', 'PyApps/src/TDL/Compile.py')],
  'monitoring what the real TDL compiler sends to the server, against a shadow of generated scripts; executing the result in the sanitized kernel',
  'Scripts are generated as text together with the graph they describe; the compiler runs unmodified, talking to a stand-in that records the commands a meqserver would get. The batch is matched with the graph node by node. A mistake is planted at a random place in a valid script, and the script is compiled again once corrected.',
  'Statements: definitions by <<, ** and assignment, arithmetic, nested anonymous nodes, constants, labelled, missing and step children, sub- and qualifier scopes, positional and keyword qualifiers, qadd/qmerge, loops, shared and repeated definitions, add_children, set_options, forward and by-name references, roots, orphans, sinks, spigots. 14 kinds of mistake, including nearly equal redefinitions and cycles. Numeric scripts are executed in the kernel under ASan+UBSan and compared with numpy. 500+250+250 scripts in the quick check, 24000 in the thorough one.')
