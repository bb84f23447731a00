from meta import P
P('O01', 'Messages reach exactly their addressees, once, intact and in order',
  'Within a process, a message sent or published by any thread is delivered exactly once to every worker whose address or subscriptions match it and to no other, with the identifier, sender, priority and payload it was sent with, whatever other receivers of the same message do to their copies; the sender is told how many receivers there are. '
  'A worker that takes its messages one at a time gets those of one priority in the order in which they were sent, higher priorities first; held and requeued messages come back, timeouts fire as often as asked and never early, and input on a watched descriptor is never missed. '
  'No schedule of senders, (un)subscriptions, workers and shutdown loses a wakeup, deadlocks or races; nothing is delivered to a worker that has been stopped.',
  ['schedules', 'inputs', 'histories'], 'all interleavings of sending, subscribing, polling, event and worker threads, and all addresses, masks, priorities, payloads and receiver reactions',
  'duplicates, losses and races need particular interleavings of poll, event and worker threads; no test sends a message',
  ['OCTOPUSSY/src/Dispatcher.cc', 'OCTOPUSSY/src/WPInterface.cc', 'OCTOPUSSY/src/WorkProcess.cc', 'OCTOPUSSY/src/Subscriptions.cc', 'OCTOPUSSY/src/Message.cc', 'OCTOPUSSY/src/MsgAddress.cc', 'DMI/src/CountedRefBase.cc'],
  [('routing and events', 'OCTOPUSSY/src/Dispatcher.cc send, poll, checkEvents'), ('queues and results', 'OCTOPUSSY/src/WPInterface.cc enqueue, do_poll, deliver'), ('matching', 'OCTOPUSSY/src/Subscriptions.cc')],
  'offline checking of event logs of the real dispatcher (exactly-once, ordering, integrity) over random concurrent scenarios, under TSan and ASan+UBSan',
  'A driver runs each scenario with real worker processes, worker threads and sender threads, and logs every send, receipt, subscription, timeout and input with a global sequence number; a checker derives from the log who must and who may have received each message. Priorities are compared only where the log fixes the order of enqueueing.',
  'Scenarios of 2-6 workers (polled, with 1-3 worker threads, or drained by a foreign thread), 1-4 sender threads, up to 360 sends of all kinds with records and blocks of up to 3000 elements, subscriptions that change meanwhile, receivers that reply, hold, requeue, keep, modify or drop messages, throw, or detach themselves, timeouts and pipe input. 166 scenarios under each of ASan+UBSan and TSan in the quick check, 3800 in the thorough one. A scenario that stops making progress counts as a lost wakeup or deadlock.')
