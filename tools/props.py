HOOK_COMMITS = ['03a27f3', '73da442', 'b420123', '4cddc28', 'ea549fc', '2c1089b', 'd97713f', '0f068c8', '7da585b', 'd27959c', '692b75a', 'c254b84']
PROPS = [
 dict(id='C01', title='Stream buffers deliver bytes in FIFO order, none lost, duplicated or changed',
  statement='For every sequence of writes, appended segments, front insertions, partial consumptions and reads on a stream buffer, the bytes a reader obtains are exactly the bytes written, in order (front insertions ahead of everything not yet consumed), each once. The reported total always equals the bytes still unread, no access leaves a segment, and every consumed segment is released exactly once.',
  over=['inputs', 'histories'], quant='all buffers, write sizes, chunk sizes and consumption points',
  why='No test drives the buffer directly; server tests move a few short strings through it.',
  files=['src/kbuf.c', 'include/kbuf.h'], mech=[('krw_* functions', 'src/kbuf.c')], observe=['krw_get_read_buffer', 'krw_read', 'krw_buffer.total_len'],
  note='Single operations are proved for buffers of any length (loop contracts, witness byte); scatter views and multi-segment consumption are bounded at 3 segments. Assumes malloc succeeds.'),
 dict(id='C02', title='Growable flat buffers preserve their contents across writes and growth',
  statement='Writing to a flat growable buffer appends exactly the given bytes after the existing ones; growing it, reserving a window, and discarding consumed bytes never change, lose or reorder unread bytes. Every window handed out lies inside the allocation with at least the promised room.',
  over=['inputs', 'histories'], quant='all contents, fill levels and request sizes below 1 GiB',
  why='No test grows a buffer past its initial size; boundaries are never hit.',
  files=['src/kbuf.c', 'include/kbuf.h'], mech=[('ks_* functions', 'src/kbuf.c')], observe=['ks_buffer'],
  note='Every operation proved from an arbitrary well-formed buffer; copies by memcpy contract at an arbitrary witness byte. Assumes malloc succeeds and sizes < 1 GiB.'),
 dict(id='C03', title='Skipping into a scatter/gather list lands on the exact byte',
  statement='Skipping n bytes into a list of segments leaves exactly the suffix that starts at byte n: the remaining segments describe the same memory in the same order with their total reduced by n. The total size computed for a list is the sum of its segment lengths.',
  over=['inputs'], quant='all segment lengths (including empty segments) and offsets, up to 4 segments',
  why='Partial transfers at segment boundaries do not occur on loopback in the tests.',
  files=['src/kbuf.c', 'src/klib.c', 'include/klib.h', 'include/kbuf.h'], mech=[('kgl_iovec_seek, kbuf_seek, kgl_get_bufs_size', 'src/kbuf.c')], observe=['remaining iovec / buffer chain'],
  note='Complete for lists of at most 4 segments with arbitrary lengths and offsets (bounded in the number of segments).'),
 dict(id='C04', title='Pool allocations never overlap and never leave their block',
  statement='Every region returned by a memory pool is large enough, suitably aligned when alignment was requested, lies entirely inside memory owned by the pool, and overlaps no other region handed out earlier. Regions too big for a block are recorded once, and releasing one early releases exactly that one.',
  over=['inputs', 'histories'], quant='all pool block sizes, fill levels and request sizes; pools of up to 3 blocks',
  why='Tests allocate a handful of small objects from a fresh default-size pool.',
  files=['src/kmalloc.c', 'include/kmalloc.h'], mech=[('kgl_palloc_small/block/large', 'src/kmalloc.c')], observe=['kgl_palloc', 'kgl_pnalloc', 'kgl_pmemalign', 'kgl_pfree'],
  note='Creation proved; allocation complete for chains of at most 3 blocks and 5 separately allocated regions. Assumes malloc succeeds.'),
 dict(id='C05', title='Ending a pool runs each cleanup once and releases everything once',
  statement='Destroying or resetting a pool runs every registered cleanup handler exactly once with its data, most recent first, while all pool memory is still valid. Destroying releases every block and every separately allocated region exactly once; resetting releases the separate regions, keeps the blocks and makes their space available again. Registering a handler "once" never yields two registrations.',
  over=['inputs', 'histories'], quant='all pools of up to 3 blocks, 3 separate regions and 3 handlers',
  why='No test registers cleanup handlers or resets a pool.',
  files=['src/kmalloc.c'], mech=[('kgl_destroy_pool, kgl_reset_pool, kgl_cleanup_*', 'src/kmalloc.c')], observe=['handler calls', 'free calls'],
  note='Complete up to 3 blocks, 3 separate regions, 3 handlers, any order and contents. Assumes handlers do not allocate from the dying pool.'),
 dict(id='C06', title='Pool arrays keep their elements and stay inside their storage as they grow',
  statement='Pushing one or several elements onto a pool-backed array preserves all existing elements, returns room for the new ones directly after them, and never uses storage the pool has not set aside for this array. Destroying an array gives back storage only if it is the most recent allocation.',
  over=['inputs', 'histories'], quant='all capacities (including zero) and fill levels up to 8 elements, array last in the pool, inside it or separate',
  why='Pool arrays are not exercised by any test.',
  files=['src/kmalloc.c', 'include/kmalloc.h'], mech=[('kgl_array_*', 'src/kmalloc.c')], observe=['kgl_array_push', 'kgl_array_push_n', 'kgl_array_destroy'],
  note='Complete for up to 8 elements of 8 and 3 bytes; the allocator underneath is used through its contract (decided by C04).'),
 dict(id='C07', title='The red-black tree is an ordered, balanced map',
  statement='After any sequence of insertions and removals the tree contains exactly the inserted and not removed elements, iteration visits them in strictly increasing key order, and its depth stays logarithmic. Lookup finds an equal key exactly when present (the ring lookup finds the largest key not above the one asked for, wrapping around), inserting an existing key changes nothing, and removal releases exactly the removed node.',
  over=['inputs', 'histories'], quant='all trees, all keys, all positions of insertion and removal',
  why='Tests reach the tree only through a DNS cache with one or two names; no rebalancing case is ever taken.',
  files=['src/krbtree.c', 'include/krbtree.h'], mech=[('rb_insert_color, rb_erase, rbtree_*', 'src/krbtree.c')], observe=['rbtree_find', 'rbtree_insert', 'rbtree_remove', 'rb_next'], hook='KGL_LOOP_CONTRACT at the rebalancing and search loops',
  note='Rebalancing and search loops proved for trees of any size by inductive step (hook at the loop head = Hoare rule); unlinking complete for successors up to 4 levels down; iteration on trees of depth 4. Local-replacement lemma is a paper argument.'),
 dict(id='C09', title='One-shot timers fire exactly once, not early, in deadline order',
  statement='A timer added with delay d fires its callback exactly once, with result 0 and its own data and argument, at the first check at or after now + d and never before; timers due at the same check fire in deadline order and timers with equal deadlines all fire. Timers not due stay pending, a callback may add further timers, and each fired timer is released once. When the system clock is set back, every pending deadline and every activity time moves by exactly the size of the step.',
  over=['inputs', 'histories'], quant='all deadlines, clock values and numbers of pending timers',
  why='Tests use one or two sleeps; equal deadlines, insertion orders and clock steps are never produced.',
  files=['src/kselector.c', 'include/kselector.h'], mech=[('kgl_insert_block_queue, kselector_add_timer, kselector_check_timeout, kselector_adjust_time, kselector_update_time', 'src/kselector.c')], observe=['timer callbacks', 'selector.block_first'], hook='KGL_LOOP_CONTRACT at the timer loops',
  note='Insertion, collection, firing and shifting loops proved by inductive step; whole rounds also executed symbolically for up to 3 deadlines. Tree operations enter through their contracts (C07).'),
 dict(id='C10', title='Inactivity timeouts, ready dispatch and ticks each happen exactly once per round',
  statement='At each check a listed connection whose last activity is at least its list timeout ago is handled once: granted another period if it has periods left, told of the read timeout if it asked for that and has a read pending, and otherwise taken off the list and shut down; more recently active ones are untouched. Each object in the ready list is removed and then dispatched exactly once according to its pending operation and readiness, and what is still pending goes under inactivity timeout. Each registered tick is called once, a tick may close itself, and the round reports the smallest positive interval requested, at most 100 ms. The object count always equals the number of listed objects.',
  over=['inputs', 'histories'], quant='all lists, flags, clock values and tick results',
  why='No test lets a connection time out, uses ticks, or has more than one object ready.',
  files=['src/kselector.c', 'include/kselectable.h', 'include/klist.h'], mech=[('kselector_check_timeout, kselector_add_list, kselector_remove_list, tick functions', 'src/kselector.c')], observe=['shutdowns', 'callbacks', 'selector.count', 'lists'], hook='KGL_LOOP_CONTRACT at the list loops',
  note='One step of each loop proved from an arbitrary list (head, last and neighbours explicit); the composition over the list is a paper argument.'),
 dict(id='C11', title='A fiber mutex admits at most its limit and hands over to exactly one waiter',
  statement='A lock request on a fiber mutex is granted at once exactly while fewer than the limit hold it, and otherwise queued and granted later; a limited try is refused exactly when that many requests are already counted. Releasing hands the mutex to exactly one queued waiter (fiber of this thread, fiber of another thread, or callback), woken once with result 0, or else frees one place; the reported count is always holders plus waiters. No fiber is switched or woken while the internal lock is held.',
  over=['schedules', 'histories'], quant='all interleavings of lock, try_lock, unlock and limit changes by any number of fibers and threads',
  why='No test uses fiber mutexes.', files=['src/kfiber_sync.c', 'include/kfiber_sync.h', 'include/kfiber.h'], mech=[('kfiber_mutex_*', 'include/kfiber_sync.h')], observe=['kfiber_mutex_lock', 'kfiber_mutex_try_lock', 'kfiber_mutex_lock2', 'kfiber_mutex_unlock', 'kfiber_mutex_get_count'],
  note='Monitor proof: each critical section from an arbitrary state satisfying the invariant, with interference at every lock. Switching fibers is a stub (C40).'),
 dict(id='C12', title='A fiber read/write lock excludes writers and releases everyone it should',
  statement='A writer holds the fiber read/write lock only when nobody else does; a reader is admitted exactly when no writer holds it or waits for it. When a writer releases, all waiting readers become holders and each is woken once, or else one waiting writer becomes the holder and is woken; when the last reader releases, one waiting writer becomes the holder and is woken. Nobody is left waiting on a free lock, and nobody is woken while the internal lock is held.',
  over=['schedules', 'histories'], quant='all interleavings by any number of fibers and threads',
  why='No test uses fiber read/write locks.', files=['include/kfiber_sync.h', 'include/kfiber.h'], mech=[('kfiber_rwlock_*', 'include/kfiber_sync.h')], observe=['kfiber_rwlock_rlock', 'kfiber_rwlock_wlock', 'kfiber_rwlock_runlock', 'kfiber_rwlock_wunlock'], hook='KGL_LOOP_CONTRACT at the reader and wake-up loops',
  note='Monitor proof with inductive steps for the reader loops. Switching fibers is a stub (C40).'),
 dict(id='C13', title='Fiber events release exactly the waiters they should and are never lost',
  statement='Signalling an auto-reset fiber event releases exactly one waiter with the given result, or is remembered and consumed by exactly one later wait; signalling a manual-reset event releases every waiter and later waits return at once. A wait (fiber, callback or try) on a set event never suspends, on an unset event it waits in the queue exactly once (a try fails), and nobody is left waiting while an event is set. This holds for the single-thread and the thread-safe kinds.',
  over=['schedules', 'histories'], quant='all interleavings, any number of waiters of any kind',
  why='Tests use events only through joining one fiber.', files=['src/kfiber_sync.c', 'include/kfiber.h'], mech=[('kfiber_cond_*', 'src/kfiber_sync.c')], observe=['kfiber_cond.f->wait', 'notice', 'try_wait', 'wait_callback'], hook='KGL_LOOP_CONTRACT at the wake-up loop',
  note='Monitor proof for the thread-safe kinds; wake-up loop by inductive step.'),
 dict(id='C14', title='A channel passes each value to one receiver and tells everyone when it closes',
  statement='Every value sent on a channel is received by exactly one receive, and the sender learns success exactly then; sender and receiver may come in either order and wait for each other. Closing makes every waiter return failure without a value, later sends and receives fail at once, and closing again does nothing. The channel lives until its last reference is released and is then freed once.',
  over=['histories'], quant='all histories of sends, receives and closes by any number of fibers of a thread',
  why='No test uses channels.', files=['src/kfiber_sync.c'], mech=[('kfiber_chan_*', 'src/kfiber_sync.c')], observe=['kfiber_chan_send', 'kfiber_chan_recv', 'kfiber_chan_close', 'kfiber_chan_release'], hook='KGL_LOOP_CONTRACT at the closing loop',
  note='All states reached through the interface; queue tails arbitrary.'),
 dict(id='C15', title='Thread events and spin read/write locks are sound under every schedule',
  statement='A wait on a thread event returns only when the event has been set, however often the thread wakes up for other reasons; it consumes an auto-reset event and leaves a manual-reset one set. On a spin read/write lock a reader gets in only while no writer holds it and a writer only when nobody holds it, whatever other threads do between any two steps; a prioritised writer announces itself first and low-priority readers wait for it. The event flavour that lets a thread wait for a fiber delivers the value it was signalled with.',
  over=['schedules'], quant='all interleavings at atomic steps and lock operations',
  why='The tests never make two threads wait on the same object.', files=['include/ksync.h', 'include/katom.h', 'src/kfiber_sync.c'], mech=[('kcond_*, krw_mutex_*, kwr_mutex_*', 'include/ksync.h')], observe=['kcond_wait', 'kcond_try_wait', 'krw_mutex_*'], hook='KGL_LOOP_CONTRACT at the waiting loops',
  note='Loops by inductive step with arbitrary interference; sequentially consistent atomics assumed.'),
 dict(id='C16', title='Fiber transfer helpers move exactly the data, in order, and tell what is left',
  statement='A fiber read, write or sendfile starts one operation on exactly the region asked for and returns its result, whether it completes at once or later; a read that is still pending after a timeout fills the new caller\'s buffer. The "full" variants repeat until everything is transferred, each time with exactly the part that is left (empty segments are passed over), and at an error or end of stream stop and report what is left; a file position moves by exactly the bytes sent.',
  over=['inputs', 'histories', 'schedules'], quant='all sizes, segment lists and sequences of partial results, synchronous or not',
  why='Tests transfer a few bytes that always complete in one piece.', files=['include/kfiber.h', 'src/kfiber.c'], mech=[('kfiber_net_*, kfiber_sendfile*', 'include/kfiber.h, src/kfiber.c')], observe=['kfiber_net_write_full', 'kfiber_net_writev_full', 'kfiber_net_read_full', 'kfiber_sendfile_full'], hook='KGL_LOOP_CONTRACT at the transfer loops',
  note='Loops by inductive step for any number of operations and segments. Operations enter by contract; switching fibers is a stub (C40).'),
 dict(id='C17', title='Asynchronous file I/O moves the right bytes and reports them truthfully',
  statement='An asynchronous file operation asks the kernel for exactly the given bytes at the file position (direct mode: the aligned blocks covering it), completes its fiber once with the bytes transferred from that position (0 at end of file, an error as an error), and moves the position by that amount; one that cannot be started fails without waiting. Whole transfers stop only when complete or failed, files can be used from another thread with the same result, and opening creates, truncates, appends and protects exactly as its mode says.',
  over=['inputs', 'histories', 'fault_sequences'], quant='all offsets, lengths, modes and kernel results',
  why='The test reads and writes one small file; direct mode, end of file and failures never occur.', files=['src/kepoll_selector.c', 'include/kasync_file.h', 'src/kasync_file.c', 'src/kfiber.c', 'src/kfile.c'], mech=[('epoll_selector_aio_*, result_aio_event', 'src/kepoll_selector.c'), ('kfiber_file_*', 'src/kfiber.c'), ('kfopen', 'src/kfile.c')], observe=['kfiber_file_read', 'kfiber_file_write', 'kfiber_file_tell', 'kfiber_file_open', 'io_submit requests'], hook='KGL_LOOP_CONTRACT at the completion and transfer loops',
  note='Kernel calls enter by contract. Loops by inductive step.'),
 dict(id='C18', title='Every job given to a worker pool is run once, by at most the allowed threads',
  statement='A job accepted by a worker pool is queued behind the others (an urgent one in front) with its own data and is run exactly once, without a lock, by a thread of the pool; it is refused, or its submitter waits until it is taken, exactly when the queue is over its limit. A worker thread is started exactly while fewer than allowed run, ends only with nothing queued, and is counted exactly while it runs; the last reference releases the pool once. The thread pool reuses a free thread, told after its work is in place, before it creates one; each thread does each piece of work once, and only threads too many that were free for long are ended.',
  over=['schedules', 'histories', 'fault_sequences'], quant='all interleavings of submitters, workers and pool threads, all queue lengths and limits',
  why='Tests submit a handful of jobs that never fill a queue and never fail to start a thread.', files=['src/kasync_worker.c', 'src/kthread.c'], mech=[('kasync_worker_*', 'src/kasync_worker.c'), ('kthread_pool_start, run_thread, kthread_flush', 'src/kthread.c')], observe=['job callbacks', 'worker counts', 'thread starts'], hook='KGL_LOOP_CONTRACT at the worker and thread loops',
  note='Monitor proof over both locks with inductive steps for the loops; threads and signals enter by contract.'),
 dict(id='C19', title='Every name lookup is answered once, with addresses the caller owns',
  statement='A lookup calls its callback exactly once: with the cached answer while that is fresh, or with the answer of one shared background lookup for all who wait for the same name, family and flags, or with an error if no lookup can be started. Each receiver of an answer owns one reference to it; the addresses live while anybody refers to them and are released once afterwards. A stale answer is served while one refresh runs, a refresh never disturbs a lookup in progress, expired names are dropped unless in use, and walking an answer visits each usable address once and then releases it.',
  over=['histories', 'schedules', 'fault_sequences'], quant='all interleavings of lookups, answers, refreshes and expiry by any number of threads and names',
  why='The only test of it needs the network and asks for one name once.', files=['src/kaddr.c'], mech=[('kgl_find_addr, async_addr_worker, update_addr_cache', 'src/kaddr.c')], observe=['address callbacks', 'kgl_addr references', 'kgl_get_addr_cache_count'], hook='KGL_LOOP_CONTRACT at the answering and expiry loops',
  note='Monitor proof over the cache lock with inductive steps for the loops; the tree (C07), the worker pool (C18) and getaddrinfo enter by contract.'),
 dict(id='C22', title='Socket operations on the epoll back end complete once and miss no readiness',
  statement='A read, write, sendfile, connect, accept or hang-up watch started on a socket is tried at once if the socket is known to be ready, and otherwise stays pending, on a list with a timeout, with the kernel watching the socket for it; if the kernel refuses, the caller is told once, nothing is pending and a later attempt asks again. Every kernel event is remembered and queues the socket as ready exactly once if an operation it concerns is pending. An operation that would block is put back and never reported; any other outcome is reported exactly once to its own callback with its own argument and the number of bytes or the error. Removing a socket leaves nothing of it in the kernel or in any list.',
  over=['inputs', 'histories', 'fault_sequences'], quant='all socket states, event masks, operations and results of system calls',
  why='Tests use sockets that are ready or soon become ready; refused registrations, would-block after ready and combined events never occur.', files=['src/kepoll_selector.c', 'src/kselectable.c', 'include/kselectable.h'], mech=[('epoll_selector_*', 'src/kepoll_selector.c'), ('selectable_*_event', 'src/kselectable.c')], observe=['operation callbacks', 'epoll_ctl requests', 'ready and timeout lists'], hook='KGL_LOOP_CONTRACT at the event loop',
  note='One event of the event loop from an arbitrary state by inductive step; kernel calls and OpenSSL enter by contract.'),
 dict(id='C26', title='A TLS connection carries the bytes exactly and reports its state truthfully',
  statement='A TLS read or write over a list of segments moves one contiguous run of bytes from the front of the list, in order and without gaps, starting with the byte read ahead with early data, and returns exactly its length; with nothing moved it returns the result of the failed attempt, so that data that is not there yet is never taken for the end of the stream. A handshake or shutdown is tried again exactly when TLS asks to read or write, after the socket is ready for that, and its outcome is reported exactly once.',
  over=['inputs', 'histories', 'fault_sequences'], quant='all segment lists and all sequences of partial results, early data included',
  why='The test handshakes and exchanges one small message; early data, partial transfers and failures never occur.', files=['src/kselectable.c', 'src/kconnection.c', 'src/kgl_ssl.c'], mech=[('kgl_ssl_readv, kgl_ssl_writev', 'src/kselectable.c'), ('kselectable_ssl_handshake', 'src/kconnection.c')], observe=['SSL_read/SSL_write calls', 'operation callbacks'], hook='KGL_LOOP_CONTRACT at the TLS transfer loops',
  note='Loops by inductive step for any number of segments and partial results; OpenSSL enters by contract.'),
 dict(id='C23', title='A notice posted to an event loop from any thread is delivered exactly once',
  statement='Every notice posted to an event loop (the next() operation that completes work for another thread, starts fibers and hands out connections) is delivered on that loop exactly once, with the data, argument and result it was posted with, never while the queue is locked, and is then released once; a notice is announced only after it is in the queue, and each announcement takes exactly one notice, so no schedule of posters and the loop loses one, repeats one or takes from an empty queue.',
  over=['schedules', 'histories'], quant='any number of posters and notices and any schedule',
  why='A lost or repeated wake-up needs a poster between two particular steps of the loop; the tests post a handful of notices.', files=['include/kepoll_selector.h', 'src/kepoll_selector.c'], mech=[('kepoll_notice, kepoll_notice_event', 'include/kepoll_selector.h'), ('epoll_selector_next', 'src/kepoll_selector.c')], observe=['callbacks delivered', 'event counter'], hook='KGL_LOOP_CONTRACT at the drain loop',
  note='Monitor invariant over the queue lock; the drain loop by inductive step. Order of delivery is not promised.'),
 dict(id='C28', title='A fiber runs once where it was created, and every joiner gets its return value',
  statement='A created fiber runs its start function exactly once, with the given argument, on the event loop it was created for (the creator\'s own, the given one, or one chosen for it). Its end is reported exactly once to every joiner and exit callback, in any order and before or after it ended, always with its return value; its memory is released exactly once, after it has ended and its last handle was given up. A call that suspends a fiber (sleeping, joining, running a function on another thread, resolving a name, connecting, accepting, a TLS handshake or shutdown) resumes it exactly once, with the result of what it waited for, and returns at once if that could not be started. A thread may enter and leave an event loop any number of times.',
  over=['inputs', 'schedules', 'histories', 'fault_sequences'], quant='all creations, ends, joins and completions in any order',
  why='Tests create and join one fiber at a time in one order; ended-before-join, several callbacks and failing starts never occur.', files=['src/kfiber.c', 'include/kfiber.h'], mech=[('kfiber_create2, kfiber_exit, kfiber_join', 'src/kfiber.c'), ('kfiber_wakeup, kfiber_wait_result', 'include/kfiber.h')], observe=['start function', 'kfiber_join', 'kfiber_join2', 'kfiber_exit_callback'],
  note='Conditions, sockets and timers enter by their own contracts (C09-C22); the context switch itself is C40.'),
 dict(id='C31', title='A listener survives failed connections and is given up exactly once',
  statement='Opening a server puts one listener on every event loop (or one on the given socket), each started once on its own loop; the server counts as open exactly if one of them is. Every accepted connection is handed to the user once, on the loop it belongs to, owning its socket and one server reference; an interrupted accept, a connection aborted before it was accepted or one whose TLS session cannot be made does not end the listener, while a shut down or failed one is given up exactly once. Closing a server shuts every listener down once. Listeners, servers and certificates are freed exactly once, with their last reference, and never while an event or a certificate update for them is on its way; a failed bind or open changes nothing and leaks nothing.',
  over=['inputs', 'histories', 'schedules', 'fault_sequences'], quant='all orders of connections, failures, closes and certificate changes; any number of loops and listeners',
  why='Tests open one listener, accept on it and exit; failing accepts, certificate changes while connections arrive and close races never occur.', files=['src/kserver.c', 'include/kserver.h', 'src/kconnection.c', 'include/kgl_ssl.h'], mech=[('kserver_open, kserver_close, kserver_selectable_destroy, kselector_event_accept', 'src/kserver.c'), ('KACCEPT_CALLBACK', 'include/kserver.h')], observe=['kserver_open', 'kserver_close', 'kserver_release', 'KACCEPT_CALLBACK'],
  note='Exhaustion of file descriptors is reported to the accept callback as an error.'),
 dict(id='C20', title='Addresses compare and convert faithfully, and sockets are never leaked',
  statement='Comparing addresses (ksocket_addr_compare, ksocket_ipaddr_compare) is a total order in which exactly equal hosts compare equal, and equal hosts hash equal. Converting an address between its forms (resolver answer, socket address, bare IP, text, unix path) keeps family, address and the port given, and stays inside the destination; its length and port are those of its family. Every call that opens a socket (listen, connect, half connect, UDP) returns an open socket in the requested mode with the requested options, or reports failure and leaves none open; the resolver\'s answer is released once. Only an old socket is ever removed from a unix path.',
  over=['inputs', 'fault_sequences'], quant='all addresses of all families, all flags, all failures of the kernel calls',
  why='Tests use 127.0.0.1 and calls that succeed; order, IPv6, unix paths and failing calls are never exercised.', files=['src/ksocket.c', 'include/ksocket.h'], mech=[('ksocket_listen, ksocket_half_connect, ksocket_getaddr', 'src/ksocket.c'), ('ksocket_addr_compare, ksocket_addr_len', 'include/ksocket.h')], observe=['ksocket_addr_compare', 'ksocket_getaddr', 'ksocket_listen'],
  note='The Windows branches are outside.'),
 dict(id='C21', title='Connections and datagram sockets keep their addresses and give up all they own',
  statement='A new connection keeps the peer address it was given (IP or unix, whole, with the port asked for) and owns nothing but its pool. Connecting tries that address once, from the bind address given, and reports the outcome to the callback exactly once. Destroying a connection gives up its socket, pool, SNI data, and its server reference or datagram part, each exactly once. A datagram socket is made in the family and with the options asked for, or leaves nothing behind; every send is one datagram with the caller\'s bytes and address, whose outcome is reported; the destination address of a received datagram is told, for IPv4 and IPv6, exactly if the kernel told it.',
  over=['inputs', 'fault_sequences'], quant='all addresses, flags and failures',
  why='Tests connect to 127.0.0.1 only; IPv6, unix and datagram sockets and failing calls never occur.', files=['src/kconnection.c', 'src/kudp.c', 'include/kconnection.h', 'include/kudp.h'], mech=[('kconnection_new, kconnection_half_connect, kconnection_real_destroy', 'src/kconnection.c'), ('kudp_new2, kudp_get_recvaddr', 'src/kudp.c')], observe=['kconnection_new', 'kconnection_connect', 'kudp_get_recvaddr'],
  note='The TLS part of connections is C26, waiting for the socket C22.'),
 dict(id='C25', title='The loop manager gives each task to one live loop and runs each callback once',
  statement='As many loops exist as were asked for, rounded down to a power of two (1 to 64), each with its own number, started exactly once, with the configured timeouts, also when added later. A loop chosen for new work is always one of them, never one that holds 64 sockets more than its successor, in turn; every index names a loop. A callback waiting for the loops is handed to a loop exactly once and its record freed; a thread callback runs once when a loop\'s thread starts and once when it ends. A timer set from any thread is armed on a loop\'s own thread with the caller\'s callback, argument, data and due time. Growing is refused, changing nothing, when it cannot be done safely. Closing tells all loops first and destroys each once, after its thread left; none is handed out afterwards. kasync_main runs its function once on a loop of its own and returns its result.',
  over=['inputs', 'histories', 'configurations'], quant='all loop numbers, loads, callback lists, timers and call times',
  why='Tests use one loop with no callbacks waiting; load imbalance, growth, closing and foreign threads never occur.', files=['src/kselector_manager.c', 'include/kselector_manager.h'], mech=[('get_perfect_selector, selector_manager_init, selector_manager_grow', 'src/kselector_manager.c'), ('selector_manager_add_timer, selector_manager_on_ready', 'src/kselector_manager.c'), ('kasync_main, kselector_thread', 'src/kselector_manager.c')], observe=['get_perfect_selector', 'selector_manager_add_timer', 'kasync_main'],
  note='The choice of a loop is proved by an inductive contract on its search, for any load.'),
]
NA = [
 dict(id='C40', title='Switching fibers preserves each fiber\'s stack and registers',
  statement='After a fiber is suspended and later resumed, its callee-saved registers, floating point control state and stack contents are what they were when it was suspended.',
  over=['schedules', 'histories'], quant='all suspension points', why='Tests switch a few fibers with little live state.',
  files=['fcontext', 'src/kfiber.c'], reason='The switch is hand-written assembly (fcontext *.S); no installed deductive verifier gives contracts to it, and a model of it would be another technique.'),
 dict(id='C41', title='Every woken fiber eventually runs (no lost wakeup, liveness)',
  statement='On every schedule, a fiber that has been woken is eventually resumed and a program in which every waiter has a waker terminates.',
  over=['schedules'], quant='all schedules of fibers and threads', why='Tests run one schedule each.',
  files=['src/kfiber.c', 'src/kfiber_sync.c', 'src/kselector.c'], reason='Liveness over unbounded schedules: function contracts express what each call does to the queues (C11-C15, C28), not that a scheduler eventually serves them.'),
 dict(id='C42', title='Structures shared between threads are free of data races',
  statement='No two threads access the same non-atomic location concurrently without a common lock, one of them writing.',
  over=['schedules'], quant='all interleavings of selector and worker threads', why='Races need rare interleavings.',
  files=['src/kselector_manager.c', 'src/kasync_worker.c', 'src/kfiber_sync.c'], reason='The C verifier used (cbmc contracts) has no permission or ownership logic for threads; lock/unlock pairing per call is covered inside C11-C18, data-race freedom is not decided.'),
 dict(id='C43', title='The io_uring, kqueue and IOCP back ends deliver each completion exactly once',
  statement='On every supported kernel interface each submitted operation completes its callback exactly once with the kernel\'s result.',
  over=['fault_sequences', 'configurations'], quant='all back ends', why='Only epoll is built here.',
  files=['src/kiouring_selector.c', 'src/kkqueue_selector.c', 'src/kiocp_selector.c'], reason='These files do not compile in this sandbox (headers absent), so no obligation can be generated from them; the epoll back end is covered by C22.'),
]
