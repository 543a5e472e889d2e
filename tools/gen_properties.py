#!/usr/bin/env python3
"""Regenerates /verif/properties.jsonl."""
import json
import os

OUT = []


def prop(id, title, statement, over, quant, why, files, mechanism, observe=(), state=()):
    assert len(title) <= 80, (id, len(title))
    OUT.append({
        "id": id, "title": title, "statement": " ".join(statement.split()),
        "quantifier": {"over": over, "text": " ".join(quant.split())},
        "why_tests_cant": " ".join(why.split()),
        "anchors": {
            "files": files,
            "mechanism": [{"name": n, "where": w} for n, w in mechanism],
            "state": [{"name": n, "meaning": m, "where": w} for n, m, w in state],
            "observe_at": list(observe),
            "hook_needed": None,
        },
    })


prop("P01", "A file-persisted log survives a crash of the process, exactly once and in order",
     """Whatever has been published into a file-backed log, and has been acknowledged to the publisher, is there after any
     crash and restart of the process: once, at the index and with the timestamp that were acknowledged, with the same
     contents. The log opens after any such crash, contains nothing but what has been handed in for publishing, keeps what an
     earlier restart has already reported, and continues with the next index. The head of the log never moves backwards.""",
     ["crash_points", "schedules", "inputs", "histories"],
     "Every point at which the process may die, including in the middle of a write; every number of restarts; every "
     "interleaving of the publishers; every contents of the entries.",
     "The tests close the file cleanly before they re-open it; none of them loses a process in the middle of a write, and "
     "none restarts from a file with an incomplete last line.",
     ["blocks/persistence/file.h"],
     [("one entry is one line, appended and flushed before it is acknowledged", "blocks/persistence/file.h PersisterPublishImpl"),
      ("the file is validated, and its incomplete last line is dropped, on startup", "blocks/persistence/file.h ValidateFileAndInitializeHead")],
     ["Publish, Iterate, IterateUnsafe, Size, LastPublishedIndexAndTimestamp, CurrentHead of a re-opened persister"])

prop("P02", "A failed disk operation is never reported as a successful publish",
     """If the disk does not accept an entry in full (it is full, it fails, or it takes only a part of the entry), publishing
     reports an error, and the entry does not appear in the log later on. Entries acknowledged before, between and after the
     failures all stay readable, in order, in this process and after a restart. A log which can not be opened, or can not be
     read to its end, is reported as such, rather than taken for an empty or a shorter one.""",
     ["fault_sequences", "schedules", "inputs"],
     "Every sequence of full disks, I/O errors, short and interrupted writes and reads, and failures to open the file.",
     "No test makes a disk operation fail.",
     ["blocks/persistence/file.h"],
     [("writes are checked before the entry is acknowledged", "blocks/persistence/file.h AppendLine"),
      ("opening and reading are checked on startup", "blocks/persistence/file.h ValidateFileAndInitializeHead")],
     ["the exceptions out of Publish, UpdateHead and the constructor; what is readable afterwards"])

prop("P03", "Reading a log concurrently with publishing yields exactly what was published",
     """Iterating over any range of a log, by index or by timestamp, parsed or as raw lines, in memory or on disk, yields
     exactly the entries of that range, in order and intact, no matter how many publishers are appending and other readers
     are reading at the same time. What is acknowledged before the iteration has begun is visible to it, and a range which
     does not exist is reported as an error. The size, the last entry and the head are consistent with one moment in time.""",
     ["schedules", "inputs"],
     "Every interleaving of publishers and readers; every range, by index and by timestamp, including the empty and the "
     "invalid ones; short reads.",
     "The tests read a log from the very thread which has published into it, or with sleeps that keep the two apart.",
     ["blocks/persistence/file.h", "blocks/persistence/memory.h"],
     [("the offsets and the timestamps of the entries are guarded by the publish mutex", "blocks/persistence/file.h record_offset_"),
      ("the end of the log is published atomically, after the entry itself", "blocks/persistence/file.h end_"),
      ("in memory, the entries are guarded by a mutex of their own", "blocks/persistence/memory.h")],
     ["Iterate, IterateUnsafe, Size, IndexRangeByTimestampRange"])

prop("S01", "Concurrent publishers: contiguous indexes, strictly increasing timestamps",
     """Any number of threads may publish into a stream at the same time, via the stream or via borrowed publishers; each successful publish gets an index and a timestamp of its own; the indexes are 0, 1, 2, ... without gaps, and the
     timestamps strictly increase along with them, even if the wall clock stalls or is moved back; the entry is stored at that index with that
     timestamp. A publish or an update of the head with the default timestamp always succeeds; one with an explicit timestamp succeeds
     if and only if it exceeds the head of the stream; the head never moves back.""",
     ["schedules", "inputs", "fault_sequences"],
     "Every interleaving of the publishers; every behaviour of the wall clock; every mix of default and explicit timestamps "
     "and of head updates.",
     "The tests publish from one thread, and the clock does not stall or go back in them.",
     ["stream/stream.h", "stream/stream_impl.h", "blocks/persistence/memory.h", "blocks/persistence/file.h"],
     [("the index and the timestamp are assigned with the publish mutex locked", "blocks/persistence/file.h PersisterPublishImpl"),
      ("the current time is taken with the same mutex locked", "blocks/ss/types.h DefaultTimeArgument / bricks/time/chrono.h Now")],
     ["what Publish returns and throws; Data()->Iterate, Size, CurrentHead"])

prop("S02", "Every subscriber gets every entry it asks for exactly once and in order",
     """A subscriber which asks for the entries of a stream from an index on gets each entry from that index on which passes
     its type filter, once, in order, intact, with its index and timestamp: those which are in the stream already, and those
     published later, with no gap or repetition at the boundary, up to the point where the subscriber asks for no more. One filtering by type is asked whether to go on once the last entry is not of its type; each entry published is delivered eventually, and so are the updates of the head, in between the right entries. The last
     index and timestamp passed along are never behind the entry itself and never go back.""",
     ["schedules", "inputs", "histories"],
     "Every interleaving of publishers and of subscribers which join at any moment, are slow, or ask for no more after any "
     "entry; every starting index; typed, filtered and raw subscriptions.",
     "The tests sample a couple of schedules, and wait for subscribers in ways that hide lost wakeups and races at the "
     "boundary between replaying the past and following the present.",
     ["stream/stream.h", "blocks/ss/pubsub.h", "bricks/util/waitable_terminate_signal.h"],
     [("the subscriber thread passes what is there, and waits for more", "stream/stream.h SubscriberThreadInstance::ThreadImpl"),
      ("each publish notifies the subscribers", "stream/stream_impl.h NotifyAllOfExternalWaitableEvent")],
     ["the calls the subscriber gets"])

prop("S03", "Subscriptions end promptly, and nothing of them is used afterwards",
     """Once the scope of a subscription is destroyed, its subscriber is not called any more and its resources are not touched; destroying the scope takes bounded time; Terminate() is called at most once; a subscriber which agrees to terminate, or
     asks for no more entries, is not called again, and calls into one subscriber never overlap. Destroying the stream ends its
     subscriptions, waits for them, and never crashes or deadlocks, no matter when the scopes are dropped; the done callback
     is called exactly once.""",
     ["schedules", "histories"],
     "Every interleaving of publishing, subscribing, the scopes being moved, dropped from any thread, and the stream being "
     "destroyed.",
     "Such races show up in a handful of schedules out of millions; the tests run one.",
     ["stream/stream.h", "bricks/sync/owned_borrowed.h", "bricks/util/waitable_terminate_signal.h"],
     [("the termination signal and the join", "stream/stream.h ~SubscriberThreadInstance"),
      ("the destruction callbacks of the borrowers", "bricks/sync/owned_borrowed.h ~UniqueInstance")],
     ["the calls the subscriber gets, the time it takes to stop it, memory accesses"])

prop("S04", "The publisher of a stream is exclusive across master-follower changes",
     """At any moment only the present holder of the publisher can publish. BecomeFollowingStream() and BecomeMasterStream()
     return once every publisher borrowed before is released, provided that their borrowers do release them when asked to,
     and never deadlock with publishing in progress; from then on until the next change nothing is published but via the new
     publisher, and a following stream refuses to give its publisher out. Nothing published is lost across the changes.""",
     ["schedules", "histories"],
     "Every interleaving of the borrowers publishing and of the publisher changing hands.",
     "The tests change the publisher with no one else publishing.",
     ["stream/stream.h", "bricks/sync/owned_borrowed.h"],
     [("the publisher is recreated once its borrowers are gone", "stream/stream.h RecreatePublisher"),
      ("the owner waits for the borrowers", "bricks/sync/owned_borrowed.h ~UniqueInstance")],
     ["BorrowPublisher, Publisher, IsMasterStream, what is in the stream"])

prop("B01", "A borrowed object outlives its borrowers, and its owner waits for them",
     """An object managed by an Owned is destroyed only once every Borrowed of it is gone: destroying the owner makes the
     borrowers invalid, calls each of their destruction callbacks at most once, and never once the respective borrower is
     released, and returns after the last borrower is released, promptly and with no deadlock. A borrower may be copied,
     moved, reassigned, and released from any thread, at any time. Exclusive uses of the object exclude one another.""",
     ["schedules", "histories"],
     "Every interleaving of borrowers of borrowers being created, moved, dropped, and used, and of the owner leaving.",
     "Use after free and deadlocks of this kind need a preemption at a particular instruction; the tests are not in control of it.",
     ["bricks/sync/owned_borrowed.h"],
     [("the owner waits for the borrowers", "bricks/sync/owned_borrowed.h ~UniqueInstance"),
      ("the callbacks of the borrowers", "bricks/sync/owned_borrowed.h BorrowedWithCallback")],
     ["memory accesses, callbacks called, when the destructor of the owner returns"])

prop("B02", "A wait for a condition is never missed, and is aborted by the end",
     """Changing the value of a WaitableAtomic by any of its mutating methods wakes up everyone whose condition is now met,
     accesses to it exclude one another, a wait with a timeout does not give up early nor reports a condition which has not
     been met. Destroying an intrusive one aborts the pending waits, lets its clients know, waits for them all to leave, and
     accesses no freed memory. A WaitableTerminateSignal notices the event, or the termination, it is waiting for, within
     bounded time, and does not confuse the two.""",
     ["schedules", "histories"],
     "Every interleaving of changing the value, waiting for it, registering clients, and destroying the object.",
     "A lost wakeup takes a preemption between a check and a wait; the tests do not control the schedule.",
     ["bricks/sync/waitable_atomic.h", "bricks/util/waitable_terminate_signal.h"],
     [("the notification by a mutable accessor", "bricks/sync/waitable_atomic.h MutableAccessorDoesNotify"),
      ("waiting for the clients to leave", "bricks/sync/waitable_atomic.h ~IntrusiveImpl"),
      ("waiting for an event or the end", "bricks/util/waitable_terminate_signal.h WaitUntil")],
     ["who wakes up and when, what is returned, memory accesses"])

prop("B03", "The clock never returns the same time twice nor goes back",
     """current::time::Now() is strictly increasing across all the threads of the process, no matter how the system clock jumps,
     stands still, or how coarse it is; it is never behind the system clock, and once the system clock is sane and ahead
     again the time follows it. The logs rely on it for the strictly increasing timestamps of their entries.""",
     ["schedules", "fault_sequences"],
     "Every interleaving of the threads reading the clock, and every sequence of jumps of the system clock.",
     "The tests mock the clock, and the system clock does not jump while they run.",
     ["bricks/time/chrono.h"],
     [("the monotonic clock", "bricks/time/chrono.h EpochClockGuaranteeingMonotonicity")],
     ["the values returned, in the order of the calls"])

prop("Q01", "The message queue delivers every accepted message once, in order",
     """Every message MMQ accepts is passed to its consumer exactly once, uncorrupted, in the order of the indexes, which have no
     gaps, and of strictly increasing timestamps, the very ones its publisher was returned; the messages of one publisher come
     in their order. The consumer is called from one thread, never concurrently, and not after the queue is gone; destroying the
     queue delivers what has been accepted first. A queue which does not drop messages accepts all of them, waiting for space if need be, without deadlocks; one which does drop
     does so only if it is full, and tells the publisher.""",
     ["schedules", "histories", "fault_sequences"],
     "Every interleaving of publishers, of a slow consumer, and of the destruction of the queue, for every capacity.",
     "The tests run one schedule, and most of them wait for the messages to be consumed.",
     ["blocks/mmq/mmq.h"],
     [("the slots of the circular buffer", "blocks/mmq/mmq.h CircularBufferAllocate, CircularBufferCommit"),
      ("the consumer thread", "blocks/mmq/mmq.h ConsumerThread")],
     ["the calls of the consumer, what Publish returns"])

prop("Q02", "The priority queue and RipCurrent lose and duplicate nothing",
     """Every message published into MMPQ is delivered exactly once, not before the head reaches its timestamp, and with that very
     timestamp; what is due is delivered in the order of timestamps, and messages with equal timestamps in the order they were
     published. In a RipCurrent flow every message emitted, from however many threads, is received by the next block exactly
     once, the messages of one thread in their order, with no block called concurrently with itself; and joining the flow
     waits until every message has been processed.""",
     ["schedules", "histories", "fault_sequences"],
     "Every interleaving of the emitting threads, of the head updates, of the processing of the messages, and of the end of the flow.",
     "The tests emit from one thread and use distinct timestamps.",
     ["blocks/mmq/mmpq.h", "ripcurrent/ripcurrent.h"],
     [("the queue ordered by time", "blocks/mmq/mmpq.h"),
      ("the messages of a block are lined up for the next one", "ripcurrent/ripcurrent.h MMPQWrapper")],
     ["the calls of the consumers and the blocks"])

prop("T01", "Storage transactions are atomic, isolated, and honest about their outcome",
     """A transaction sees all the transactions committed before it and nothing of the others; no two run at once; their times are nested (begin, mutations, end, entry), and strictly
     increase across transactions. One which ends
     normally is committed: its mutations are one entry of the log, in their order, if there are any; one which is rolled back
     or throws leaves no trace, neither in the log nor in the contents, the relations and the modification times of any
     container. The outcome, the value and the exception it ends with are what the caller gets, the second step of a two-step transaction included.""",
     ["schedules", "histories", "fault_sequences"],
     "Every interleaving of committed, rolled back, throwing and read-only transactions, over every sequence of mutations.",
     "The tests run one transaction at a time, over a few sequences of mutations.",
     ["storage/storage.h", "storage/transaction_policy.h", "storage/base.h", "storage/persister/stream.h", "storage/container"],
     [("rolling back", "storage/base.h MutationJournal::Rollback"),
      ("a transaction under the publishing mutex", "storage/transaction_policy.h Synchronous::TransactionFromLockedSection"),
      ("a committed transaction is one entry", "storage/persister/stream.h PersistJournalFromLockedSection")],
     ["what transactions see, what they return, the entries of the log"])

prop("T02", "The log is the storage: restarts, followers and new masters have the same state",
     """The state of a storage, its modification times included, is a function of its log: after a restart, wherever the process has
     crashed and whatever write was torn, the storage has every transaction which has been acknowledged, no part of any other
     one but whole ones in the order they ran, and nothing else. A following storage always shows the state after some prefix of
     the log, never goes back, catches up within bounded time, and refuses to mutate; one which becomes the master, before or
     after the previous master is gone, has applied the whole log, and loses nothing of it afterwards.""",
     ["crash_points", "fault_sequences", "schedules", "histories"],
     "Every crash point and torn write of every history of transactions, every interleaving of a master, its followers, and a change of the master.",
     "The tests restart cleanly, and flip one idle follower.",
     ["storage/persister/stream.h", "storage/storage.h", "storage/container", "stream/stream.h", "blocks/persistence/file.h"],
     [("replaying the log", "storage/persister/stream.h SyncReplayStreamFromLockedSectionOrConstructor"),
      ("becoming the master", "storage/persister/stream.h BecomeMasterStorage"),
      ("applying a mutation", "storage/container/*.h operator()(const UPDATE_EVENT&)")],
     ["the contents of the containers after a restart and on the followers"])

prop("T03", "The containers keep their relations, indexes and modification times consistent",
     """After every mutation, committed or rolled back, each container is what its relation defines: a dictionary maps a key to the
     last value added; a many-to-many matrix a pair of keys; in a one-to-many one a column has one row, and in a one-to-one one a
     row has one column too, adding an entry replacing those it conflicts with. All the views agree: the size, the iteration, the
     lookup, the rows and the columns, their sizes and keys, with no empty row or column left behind; the ordered ones iterate in
     order. The modification time of an entry is that of the last mutation which has touched it, erasing included.""",
     ["histories", "schedules"],
     "Every sequence of mutations and rollbacks over every kind of container.",
     "The tests check a few sequences by hand; the views share pointers which any missed case leaves dangling.",
     ["storage/container"],
     [("the relations", "storage/container/many_to_many.h, one_to_many.h, one_to_one.h DoUpdateWithLastModified, DoErase..."),
      ("undoing a mutation", "storage/container/*.h LogMutation's rollback")],
     ["the contents of the containers by every view"])

prop("T04", "Each response of a storage's REST API is the truth about one transaction",
     """Each request is one transaction, done between the request and its response, which tells what has been done: a write
     reported as done is in the log of the storage exactly once, with the reported modification time, what is refused leaves no
     trace, `POST` without `overwrite` replaces nothing, `PATCH` changes no key, a conditional request is done if and only if the
     entry has not been modified since, and a CQS command is all or nothing. Reads, of an entry, a list, a page, a row, a column, or
     an export, are of one state of the storage, and the links of the pages miss no entry. A follower refuses every write, and serves
     a prefix of the history, and, once flipped, all of it; endpoints may be switched to 503s or destroyed while requests are being
     served, over any number of connections, in any of the formats.""",
     ["schedules", "histories", "inputs", "fault_sequences"],
     "Every interleaving of requests, transactions and takedowns, every order, key and body.",
     "The tests issue their requests one at a time, over one connection each, to one endpoint which outlives them.",
     ["storage/api.h", "storage/rest"],
     [("serving", "storage/api.h PerFieldRESTfulHandlerGenerator, RESTfulStorage, SwitchHTTPEndpointsTo503s"),
      ("conditional requests", "storage/rest/structured.h ExtractIfUnmodifiedSinceOrRespondWithError, RESTfulDataHandler<PUT|PATCH|DELETE>"),
      ("pages", "storage/rest/hypermedia.h BuildResponseWithCollection"),
      ("keys in URLs", "storage/api_types.h FieldTypeDependentImpl")],
     ["the responses: codes, headers and bodies", "the log of the storage"])

prop("N01", "The HTTP server serves every request exactly as sent, and survives any input",
     """However the bytes of a request are cut into segments, delayed or interrupted by signals, its handler gets exactly the method,
     the path, the path and the query parameters, the headers and the body which were sent, chunked or not, once; and the client gets the
     response of that handler, to that request, complete. A request which is not well-formed, or is cut short, or whose
     connection is reset at any point, is not given to a handler as if it were another one, and whatever a client sends or does not
     read, the server neither terminates nor ceases to serve the requests which follow.""",
     ["fault_sequences", "schedules", "inputs"],
     "Every segmentation of the bytes, every point of a reset or an interruption, every mutation of a request, every interleaving of the clients.",
     "The tests use loopback, where a request comes in one segment, from clients which are well-behaved.",
     ["bricks/net/tcp/impl/posix.h", "bricks/net/http/impl/server.h", "bricks/net/http/headers", "blocks/http/impl/posix_server.h", "blocks/url/url.h"],
     [("parsing the request", "bricks/net/http/impl/server.h GenericHTTPRequestData"),
      ("reading from the socket", "bricks/net/tcp/impl/posix.h BlockingRead"),
      ("the loop of the server", "blocks/http/impl/posix_server.h ThreadServeHTTP")],
     ["what the handlers are called with, what the clients receive"])

prop("N02", "An HTTP exchange delivers exactly what was sent, or fails visibly",
     """The response the client returns, its code, headers and body, is the one the handler has sent, whether sent at once or in chunks, with
     a request of any method, with any body, headers and query parameters, these being received by the handler as set by the
     client. If the connection is refused, reset, or closed before the whole response is received, the client throws, in
     bounded time, and never returns a part of the response as the whole of it.""",
     ["fault_sequences", "schedules", "inputs"],
     "Every request and response, every segmentation of them, every point at which the connection is lost.",
     "The tests use loopback, with no faults, and a handful of bodies and parameters.",
     ["blocks/http/api.h", "blocks/http/impl/posix_client.h", "bricks/net/http/impl/server.h", "bricks/net/http/headers", "blocks/url/url.h"],
     [("the client", "blocks/http/impl/posix_client.h HTTPClientPOSIX"),
      ("the chunked response", "bricks/net/http/impl/server.h ChunkedResponseSender"),
      ("encoding of the parameters", "blocks/url/url.h URL::EncodeURIComponent")],
     ["what the client returns or throws"])

prop("N03", "Routes come and go atomically while the server is serving",
     """A request is given to the handler registered, at some point while it is being served, for the longest path which matches
     it and the number of its path arguments, or gets a 404 if at some such point there was none. Once unregistering or replacing a
     route has returned, which it does in bounded time whatever the handlers are doing, registering other routes included, its handler is never
     called again. Scopes of routes unregister exactly what they have registered; registering a route twice is refused and
     changes nothing.""",
     ["schedules", "histories"],
     "Every interleaving of requests with registering, replacing and unregistering routes, from other threads and from the handlers themselves.",
     "The tests register the routes first, and serve requests afterwards.",
     ["blocks/http/impl/posix_server.h", "blocks/http/request.h"],
     [("looking up the handler", "blocks/http/impl/posix_server.h FindHandler"),
      ("the scoped registration", "blocks/http/impl/posix_server.h HTTPRoutesScope")],
     ["which handler serves a request, when unregistering returns"])

prop("S05", "An HTTP subscription returns exactly the part of the stream it asks for",
     """An HTTP subscriber to a stream receives, in publication order, exactly the entries its parameters select (starting index or
     tail, number of entries, since, recent, period, bytes, not waiting), each exactly once, with the index and the timestamp it was
     published with, as separate lines or as a well-formed JSON array, from any number of servers and clients at a time. It
     is ended by its own limits, by terminating it by its id, or by the destruction of the stream, in bounded time. A client
     disconnecting at any point leaves the stream, its publishers, and the other subscribers working.""",
     ["schedules", "inputs", "fault_sequences"],
     "Every combination of the parameters of a subscription, against every interleaving with publishing, head updates, disconnects and terminations.",
     "The tests fetch a few fixed URLs from a stream nobody is publishing to, over connections which never break.",
     ["stream/stream.h", "stream/pubsub.h"],
     [("the parameters", "stream/pubsub.h ParsedHTTPRequestParams"),
      ("the subscriber", "stream/pubsub.h PubSubHTTPEndpointImpl"),
      ("termination", "stream/stream.h ServeDataViaHTTP")],
     ["the response of an HTTP subscription, the exit of the process"])

prop("R01", "A replica converges to exactly its master, through every fault in between",
     """A stream which follows a remote one is, at every moment, a prefix of what was published into the remote one, each entry once,
     at the same index, with the same timestamp and contents. Whatever happens in between (connections being refused, reset, cut
     in the middle of an entry, stalled, either side restarted), the replica neither skips nor repeats an entry, nor takes a broken one, and
     once the faults stop it has all the entries, and the head, of the master in bounded time; the same holds for any subscriber to a remote stream. Unsubscribing ends it in bounded time, after which nothing more is delivered, and the
     termination is delivered to the subscriber.""",
     ["schedules", "fault_sequences", "histories", "inputs"],
     "Every interleaving of the publishers, the subscription and its termination; every point at which the connection, or "
     "either of the processes, may fail; every state the follower starts from.",
     "The tests replicate a stream over connections which never fail, from a master which is never restarted.",
     ["stream/replicator.h", "stream/pubsub.h", "stream/stream.h"],
     [("the data received is split into lines across the chunks", "stream/replicator.h PassChunkToSubscriber"),
      ("the index and the timestamp of the entry are checked", "stream/replicator.h PassEntryToSubscriber"),
      ("reconnecting from where the previous connection ended", "stream/replicator.h ThreadImpl"),
      ("unsubscribing", "stream/replicator.h TerminateSubscription")],
     ["the entries and the head of the following stream; the callbacks of a remote subscriber"])

prop("R02", "A master flip moves the authority and every entry; never two masters",
     """At any moment at most one of the streams which follow one another accepts entries from the users. A flip which succeeds leaves
     exactly one master, the stream which has asked for it, with every entry and head update acknowledged by the former one, and the former
     master does not accept entries any more; a flip which is refused (wrong key, stale or diverging history, restrictions exceeded, not
     a master) leaves the master as it was, and it gets refused exactly when it should be. The callbacks are called as documented (started, then either finished or canceled), and concurrent flips, unexposing and destroying the streams while flips are
     being requested neither deadlock nor crash.""",
     ["schedules", "fault_sequences", "inputs"],
     "Every interleaving of flips, publishers and followers; every parameter of a flip request; losing the connection at any point of the flip.",
     "The tests flip between two idle nodes, one flip at a time.",
     ["stream/replicator.h", "stream/stream.h"],
     [("serving the flip request", "stream/replicator.h MasterFlipRequest"),
      ("the diff sent to the new master", "stream/replicator.h ValidateAndSendDiff"),
      ("taking the authority over", "stream/replicator.h FlipToMaster"),
      ("the authority over the data", "stream/stream.h BecomeMasterStream, BecomeFollowingStream")],
     ["IsMasterStream, BorrowPublisher of every node; the contents of the nodes; the responses to the flip requests; the callbacks"])

prop("K01", "The registry of services reflects the keepalives, whatever the timing",
     """Once a keepalive has been accepted, the service is Active, at the location it has reported, and its snapshot is the most recent
     keepalive it has sent; a service which deregisters is Deregistered, and stays so. A service is disconnected by timeout if and only if
     no keepalive of it has been accepted for longer than the timeout, and then it is so in bounded time, also if it has fallen silent
     before Karl was restarted. The services which keep sending keepalives end up Active and are seen in the fleet view, across restarts of Karl and network failures, and each
     transition is notified of.""",
     ["schedules", "fault_sequences", "crash_points"],
     "Every interleaving of keepalives, deregistrations, timeouts, queries and restarts; any silences; any network failures.",
     "The test sends several keepalives one after another with a mocked clock, to one Karl.",
     ["karl/karl.h"],
     [("accepting keepalives", "karl/karl.h AcceptKeepaliveViaHTTP"),
      ("timing out", "karl/karl.h StateUpdateThread"),
      ("the snapshot", "karl/karl.h ServeSnapshot"),
      ("the fleet view", "karl/karl.h BuildStatusAndRespondWithIt")],
     ["the claires stored, the notifications, the snapshots and the fleet view served"])

prop("K02", "A service keeps reporting to the Karl it should, and never hangs or crashes",
     """From the moment it is registered, and until it is destroyed, Claire sends keepalives in bounded intervals to the Karl
     most recently set, and to no other, with the status as of then, as soon as that Karl can be reached, whatever has failed before. Once it
     is destroyed it has deregistered itself, and sends nothing. Requests to it and calls to it may come at any
     moment, including while it is being constructed and destroyed: none deadlocks, hangs, crashes, exits the process, or makes
     destroying it do so.""",
     ["schedules", "fault_sequences"],
     "Every interleaving of the calls, the requests, the keepalives and the destruction; any network failures; any responses of Karl.",
     "The test uses Claire from one thread, with Karl always there.",
     ["karl/claire.h"],
     [("the keepalive thread", "karl/claire.h KeepaliveThread"),
      ("registering", "karl/claire.h Register, SendKeepaliveToKarl"),
      ("requests", "karl/claire.h ServeCurrent"),
      ("destroying", "karl/claire.h ~GenericClaire")],
     ["the requests Karl gets; the responses of Claire"])

prop("F01", "A file operation reported done is done, and changes nothing else",
     """A file or directory operation which returns has done exactly what it is to, and nothing else: what is written is what is read,
     a scan gives each item which is there all along exactly once, and none after it is told to stop, and a removed tree is removed as a whole, with nothing
     outside of it touched, wherever the symbolic links within it lead. An operation which can not be done, be that because there is no
     such file or because the disk fails, throws the file exception and leaves everything else as it was; a write which fails may leave
     a part of what was being written.""",
     ["histories", "fault_sequences", "inputs"],
     "Every history of operations, every tree of files, directories and symbolic links, every order a directory is listed in, any disk failures.",
     "The test runs a few operations on two or three files, with no failures and no links.",
     ["bricks/file/file.h"],
     [("reading and writing", "bricks/file/file.h ReadFileAsString, ReadFileByLines, WriteStringToFile"),
      ("scanning", "bricks/file/file.h ScanDir, ScanDirUntil"),
      ("removing", "bricks/file/file.h RmFile, RmDir, ScopedRmFile, ScopedRmDir"),
      ("the rest", "bricks/file/file.h MkDir, RenameFile, IsDir, GetFileSize, JoinPath")],
     ["the results and the exceptions of the calls; the tree of files after each"])

prop("F02", "The self-modifying config survives crashes and failing disks",
     """Once an update of the config has returned, the new config is what is in the file and what a restart reads, and the previous one is
     preserved under its historical name. Whatever happens meanwhile, a crash at any point or a failing or full disk,
     the config file has either the previous or the new config in full. An update or a reload which throws leaves the config as it was.""",
     ["crash_points", "fault_sequences", "histories"],
     "Every history of updates, reloads and restarts, a crash at any point of them, any disk failures; updates in distinct seconds.",
     "The test makes two updates, with no crashes; of the failures, it tests one name being taken by a directory.",
     ["blocks/self_modifying_config/config.h"],
     [("updating", "blocks/self_modifying_config/config.h Update"),
      ("reloading", "blocks/self_modifying_config/config.h Reload")],
     ["the config, the exceptions, the config file and the historical ones"])

if __name__ == "__main__":
    VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    with open(os.path.join(VERIF, "properties.jsonl"), "w") as f:
        for p in OUT:
            f.write(json.dumps(p) + "\n")
