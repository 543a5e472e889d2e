"""The table of the checks: which harness decides which property."""
QUICK_SECONDS = 20
THOROUGH_SECONDS = 600

SIM = "deterministic simulation with fault injection: "
CHECKS = {
    "P01": dict(
        harness="persist", level="fault_enumeration",
        technique=SIM + "seeded schedules, process crashes and torn writes, against a ledger of acknowledged publishes",
        note="Seeded search over schedules, crash points and torn lengths; the page cache itself is never lost.",
        real="blocks/persistence/file.h and all it includes (JSON, reflection, time, locks, Owned/Borrowed)"),
    "P02": dict(
        harness="persist", level="fault_enumeration",
        technique=SIM + "short, interrupted and failing writes, reads and opens, full disks, against a ledger of acknowledged publishes",
        note="Seeded search over disk faults; files live on tmpfs behind the fault-injecting system call seam.",
        real="blocks/persistence/file.h and all it includes"),
    "P03": dict(
        harness="persist", level="exploration",
        technique=SIM + "seeded interleavings of publishers and readers, checked against the published history",
        note="Seeded search over interleavings of up to five threads; sequentially consistent memory.",
        real="blocks/persistence/file.h, blocks/persistence/memory.h and all they include"),
    "S01": dict(
        harness="stream", level="exploration",
        technique=SIM + "seeded interleavings of publishers, jumping and coarse clocks, against a ledger of acknowledged publishes",
        note="Seeded search over interleavings of up to four publishers, in memory and on disk; sequentially consistent memory.",
        real="stream/stream.h, blocks/persistence/*.h, bricks/sync/*.h, bricks/time/chrono.h and all they include"),
    "S02": dict(
        harness="stream", level="exploration",
        technique=SIM + "seeded interleavings of publishers and subscribers, every delivery checked against the published history",
        note="Seeded search; entry-typed, type-filtered and raw-line subscribers; progress within bounded simulated time.",
        real="stream/stream.h, blocks/persistence/*.h, bricks/util/waitable_terminate_signal.h, bricks/sync/*.h"),
    "S03": dict(
        harness="stream", level="exploration",
        technique=SIM + "seeded interleavings of subscribing, unsubscribing and destroying the stream, with use-after-free, deadlock and hang detection",
        note="Seeded search over schedules; every access to freed memory is detected, every deadlock and hang is a violation.",
        real="stream/stream.h, bricks/util/waitable_terminate_signal.h, bricks/sync/owned_borrowed.h"),
    "S04": dict(
        harness="stream", level="exploration",
        technique=SIM + "seeded interleavings of publishers and of master-follower changes of the stream, against an epoch model",
        note="Seeded search over schedules; progress within bounded simulated time.",
        real="stream/stream.h, bricks/sync/owned_borrowed.h, blocks/persistence/*.h"),
    "B01": dict(
        harness="sync", level="exploration",
        technique=SIM + "seeded interleavings of borrowers and of the owner leaving, with use-after-free, deadlock and hang detection",
        note="Seeded search over schedules of up to five threads; sequentially consistent memory.",
        real="bricks/sync/owned_borrowed.h"),
    "B02": dict(
        harness="sync", level="exploration",
        technique=SIM + "seeded interleavings, spurious wakeups and stalls, tokens accounted for; use-after-free, deadlock and hang detection",
        note="Seeded search over schedules of up to seven threads; sequentially consistent memory.",
        real="bricks/sync/waitable_atomic.h, bricks/util/waitable_terminate_signal.h"),
    "B03": dict(
        harness="sync", level="exploration",
        technique=SIM + "seeded interleavings of clock readers, the system clock jumping, coarse, and stepping back",
        note="Seeded search; sequentially consistent memory.",
        real="bricks/time/chrono.h"),
    "Q01": dict(
        harness="sync", level="exploration",
        technique=SIM + "seeded interleavings of publishers and of the consumer, jumping clocks, against the ledger of what was accepted",
        note="Seeded search; up to four publishers, capacities from one to five.",
        real="blocks/mmq/mmq.h, blocks/ss/*.h, bricks/time/chrono.h"),
    "Q02": dict(
        harness="sync", level="exploration",
        technique=SIM + "seeded interleavings of emitting threads, jumping clocks, against the ledger of what was emitted",
        note="Seeded search; flows of up to two emitters of up to three threads and up to three blocks.",
        real="blocks/mmq/mmpq.h, ripcurrent/ripcurrent.h, bricks/sync/waitable_atomic.h, typesystem/*"),
    "T01": dict(
        harness="storage", level="exploration",
        technique=SIM + "seeded interleavings of transactions which commit, roll back and throw, jumping clocks, against a reference model",
        note="Seeded search; up to four clients, all eight kinds of containers, in memory and on disk; sequentially consistent memory.",
        real="storage/*.h, storage/container/*.h, storage/persister/stream.h, stream/stream.h, blocks/persistence/*.h, typesystem/*"),
    "T02": dict(
        harness="storage", level="fault_enumeration",
        technique=SIM + "seeded schedules, crashes, torn writes and full disks, followers and their becoming masters, against the replayed model",
        note="Seeded search over schedules, crash points and disk faults; the page cache itself is never lost.",
        real="storage/*.h, storage/persister/stream.h, stream/stream.h, blocks/persistence/*.h"),
    "T03": dict(
        harness="storage", level="exploration",
        technique=SIM + "seeded histories of mutations and rollbacks of concurrent transactions, jumping clocks, against a reference model of the relations",
        note="Seeded search; up to eight keys a dimension, up to ten mutations a transaction.",
        real="storage/*.h, storage/container/*.h, storage/persister/stream.h, stream/stream.h"),
    "T04": dict(
        harness="rest", level="fault_enumeration",
        technique=SIM + "seeded interleavings of HTTP clients, direct transactions, losses, takedowns and flips, every response checked against the log",
        note="Seeded search; up to three endpoints of up to three formats, up to four clients, three kinds of containers, a follower.",
        real="storage/*.h, storage/rest/*.h, storage/persister/stream.h, stream/stream.h, blocks/http/*, bricks/net/*, typesystem/*"),
    "N01": dict(
        harness="http", level="fault_enumeration",
        technique=SIM + "seeded schedules of clients and of the server over a simulated TCP with segmentation, short reads, EINTR, resets and garbage, against the requests as sent",
        note="Seeded search over segmentations, interruptions, resets, and mutated requests; the client side of the garbage runs is a raw socket.",
        real="bricks/net/tcp/impl/posix.h, bricks/net/http/impl/server.h, bricks/net/http/headers/*.h, blocks/http/impl/posix_server.h, blocks/http/request.h, blocks/url/url.h"),
    "N02": dict(
        harness="http", level="fault_enumeration",
        technique=SIM + "seeded exchanges of random requests and responses over a simulated TCP with segmentation, short reads, EINTR, resets and truncation, compared end to end",
        note="Seeded search over the contents, the segmentations, the resets, and the points of truncation.",
        real="blocks/http/api.h, blocks/http/impl/posix_client.h, bricks/net/http/impl/*.h, bricks/net/http/headers/*.h, blocks/http/impl/posix_server.h, blocks/http/response.h, blocks/url/url.h"),
    "N03": dict(
        harness="http", level="exploration",
        technique=SIM + "seeded interleavings of registering, replacing and unregistering routes with requests being served, against the routes in effect",
        note="Seeded search over schedules; deadlock, hang and use-after-free detection.",
        real="blocks/http/impl/posix_server.h, blocks/http/request.h, blocks/url/url.h, bricks/net/http/impl/server.h"),
    "S05": dict(
        harness="http_stream", level="fault_enumeration",
        technique=SIM + "seeded schedules of publishers and of HTTP subscribers with random parameters over a simulated TCP with resets and disconnects, against the published history",
        note="Seeded search over schedules, parameters of the subscriptions, and network faults.",
        real="stream/stream.h, stream/pubsub.h, blocks/http/impl/posix_server.h, bricks/net/http/impl/server.h, bricks/net/tcp/impl/posix.h, blocks/persistence/*.h"),
    "R01": dict(
        harness="replica", level="fault_enumeration",
        technique=SIM + "seeded schedules of a master being published to and of followers replicating it over a simulated TCP with resets, refusals, partitions, delays, restarts of both sides, compared entry by entry; convergence in bounded time once the faults stop",
        note="Seeded search over schedules, network faults, restarts, and the points the followers start from.",
        real="stream/replicator.h, stream/stream.h, stream/pubsub.h, blocks/http/impl/*.h, bricks/net/**, blocks/persistence/*.h, blocks/ss/*.h"),
    "R02": dict(
        harness="flip", level="fault_enumeration",
        technique=SIM + "seeded chains of master flips between nodes with publishers running, concurrent and refused flips, and losses of the connection, with the number of masters as an invariant and the acknowledged entries as the reference",
        note="Seeded search over schedules, restrictions, parameters of the flip requests, and network faults.",
        real="stream/replicator.h, stream/stream.h, stream/pubsub.h, blocks/http/impl/*.h, bricks/net/**, blocks/persistence/*.h"),
    "K01": dict(
        harness="karl", level="fault_enumeration",
        technique=SIM + "seeded schedules of services sending keepalives, deregistering, going silent, and of Karl being restarted, over a simulated network with resets and jumping time, against what has been sent and acknowledged",
        note="Seeded search over schedules, silences, restarts and network faults; nginx and graphviz are not run.",
        real="karl/*.h, storage/*.h, storage/persister/stream.h, stream/stream.h, blocks/persistence/*.h, blocks/http/**, bricks/net/**"),
    "K02": dict(
        harness="karl", level="fault_enumeration",
        technique=SIM + "seeded schedules of calls to and HTTP requests of one Claire, including while it is being constructed and destroyed, over a simulated network with resets, failing and changing recipients; liveness in bounded time once the faults stop",
        note="Seeded search over schedules, calls, requests and network faults; the recipients of the keepalives are stubs.",
        real="karl/claire.h, karl/locator.h, karl/schema_claire.h, blocks/http/**, bricks/net/**"),
    "F01": dict(
        harness="files", level="fault_enumeration",
        technique=SIM + "seeded histories of operations with files and directories, with short, interrupted and failing writes, reads, opens and removals, full disks, and directories changing as they are listed, the whole tree compared with a model after every operation",
        note="Seeded search over histories and disk faults; real files on tmpfs behind the fault-injecting system call seam; directories are listed in a seeded order.",
        real="bricks/file/file.h and all it includes"),
    "F02": dict(
        harness="files", level="fault_enumeration",
        technique=SIM + "seeded histories of updates, reloads, hand edits and restarts, with crashes at any write, rename or open, torn writes, full and failing disks, against a ledger of acknowledged updates",
        note="Seeded search over histories, crash points and disk faults; the page cache itself is never lost.",
        real="blocks/self_modifying_config/config.h, bricks/file/file.h, typesystem/serialization/json/*.h, bricks/time/chrono.h"),
}
