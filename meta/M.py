from meta import P
P('M01', 'A running server answers every command once, in order, with what it did',
  'Every indexed command sent to a meqserver is answered exactly once, by a result named after the command and carrying its index (a silent one only if it fails); queued commands are carried out and answered in the order in which they were sent, and immediate ones likewise among themselves, also while executions are running. '
  'Node list, indices, states and forest state are always those of one forest that the commands so far have made; a command acts on the node it names only, and an execution is answered with that node\'s result, whatever breakpoints, steps, aborts and other commands come meanwhile. '
  'Unknown, malformed or misaddressed commands are answered with an error, change nothing and do not stop the server; a halted server ends by itself, cleanly.',
  ['histories', 'inputs', 'schedules'], 'all sequences and timings of commands with arbitrary arguments, over all forests, with one or several kernel threads',
  'the tests start no server that is commanded from outside: lost or doubled replies, races of the control thread with the executing one and crashes on malformed commands need histories of commands against the real process',
  ['MeqServer/src/MeqServer.cc', 'MEQ/src/Forest.cc', 'MEQ/src/Node_commands.cc', 'MeqServer/src/MeqPython.cc', 'OCTOPUSSY/src/MTGatewayWP.cc'],
  [('command queue and replies', 'MeqServer/src/MeqServer.cc executeCommand, execCommandEntry, runExecLoop'), ('node repository', 'MEQ/src/Forest.cc create, remove, clear, getNodeList'), ('breakpoints', 'MEQ/src/Node.cc setExecState; MeqServer/src/MeqServer.cc processBreakpoint, debug*'), ('wire', 'OCTOPUSSY/src/MTGatewayWP.cc')],
  'history checking of a real server process (ASan+UBSan) against a model of the forest, with conservation and order checks of its replies, under random, malformed and bursty command sequences',
  'A client keeps every message the server sends and a model of what its commands have made; after (or in the middle of) random histories, the list, states, indices, status and execution results are compared with the model, every command index is counted in the replies, and their order is compared with the order of sending. Death of the server, silence and sanitizer reports are violations.',
  'Histories of up to 40 commands over forests of up to 60 nodes with 1-3 kernel threads: creation (single, batch), deletion, execution, state changes, publishing, snapshots, forest state, working directory; about fifty kinds of malformed commands; bursts of up to 160 commands overtaking running executions; forests rebuilt while they are being asked about; breakpoints (local, single-shot, global), interrupts, steps and aborts at random points; halts while idle and busy. 208 histories in the quick check, 2960 in the thorough one. How far an aborted execution got, and the texts of messages, are not specified. An asynchronously cancelled thread confuses the address sanitizer\'s stack bookkeeping (a CHECK of its own, not a report about the program), so the server is run with a preloaded stand-in for that bookkeeping call (src/asanfix.c).')
