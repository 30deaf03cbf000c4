MC = 'stateless model checking of the real code: all inputs, histories, fault and crash choices within bounds, all interleavings up to a deviation bound, under a controlled scheduler with virtual time'
NOTE = 'Exhaustive within the stated bounds on the real code; trusts the scheduler patch in the Go runtime, the simulated datastore/network/clock, and the reference model in the harness. '
TODO = 'check not built yet'

prop('C01', 'Ingestion equals in-order replay of the advertisement chain',
 'After an announced or explicitly requested sync of a publisher completes, the index holds, for every provider and context in the chain, exactly the multihashes and metadata obtained by applying the advertisements one by one from oldest to newest (entries add, removals delete, an advertisement without entries only updates metadata). The result does not depend on how the chain was split over several syncs, on batch size, segment depth, number of workers, how the entries are split into chunks or a HAMT, or on whether the sync was triggered by an announcement or explicitly.',
 'histories inputs configurations schedules', 'all chains of advertisements (add, update metadata, remove, re-add over shared contexts), every way to split them over syncs, every worker/batch/depth setting, every interleaving',
 'The tests ingest a few fixed chains, in one configuration each, and mostly wait for one multihash to appear; the ingest package tests are not even stable here.',
 'internal/ingest/ingest.go internal/ingest/linksystem.go',
 ['staging and ordering of unprocessed ads @ internal/ingest/ingest.go:runIngestStep', 'one assignment per provider per worker @ internal/ingest/ingest.go:ingestWorkerLogic', 'ingestAd @ internal/ingest/linksystem.go'],
 ['indexer contents after a sync'], technique=MC,
 note=NOTE + 'Bounds: chains of 3-4 advertisements of 7 kinds over 2 contexts, every split over syncs/announcements/resyncs/restarts, batch/depth/worker settings; interleavings with <=1-2 deviations. Settings changed while a chain is ingested, a publisher that moves, chains of several providers (two known findings). Publishers are served over HTTP (simulated transport), the index is the in-memory core.')

prop('C02', 'A processed mark is never ahead of the index; failures and crashes lose nothing',
 'An advertisement is durably recorded as processed, and reported as the latest sync, only when its effect is in the index. After any transient failure (fetching blocks, writing to the index, writing to the datastore) or a crash at any point, a later sync or announcement of the same head brings the index to the same contents as if nothing had failed.',
 'crash_points fault_sequences histories schedules', 'every crash point of the datastore and index write sequence (each unsynced suffix lost), every single and double fault position of a chain ingestion',
 'No test crashes between two writes; fault tests cover one failing block at one place.',
 'internal/ingest/ingest.go internal/ingest/linksystem.go',
 ['markAdProcessed @ internal/ingest/ingest.go', 'adIngestState error classes @ internal/ingest/linksystem.go', 'ingestWorkerLogic stops at first failed ad @ internal/ingest/ingest.go'],
 ['datastore writes', 'index writes', 'recovered state'], technique=MC,
 note=NOTE + 'Bounds: chains of 2-3 advertisements, every single fault and burst, every pair of faults on two chains (on all in thorough), every crash point (two crashes in thorough). Index writes count as durable once the index has been flushed.')

prop('C03', 'Only authentic, authorised advertisements change the index',
 'An advertisement changes the index or the registered providers only if its signature verifies over its content and the signer is the provider itself or a publisher that the policy allows to publish for that provider. An advertisement with any field altered after signing, signed by another key, or signed by a publisher that is not allowed has no effect on the index.',
 'inputs configurations histories', 'every single-field alteration of every advertisement kind, every signer/publisher/provider combination, every policy',
 'Tests try one bad signature; they do not enumerate fields, signers and policies.',
 'internal/ingest/linksystem.go internal/ingest/ingest.go internal/registry/policy/policy.go',
 ['verifyAdvertisement @ internal/ingest/linksystem.go', 'RegisterOrUpdate policy checks @ internal/registry/registry.go'],
 ['indexer contents', 'registered providers'], technique=MC,
 note=NOTE + 'Bounds: one advertisement of each kind by publisher A or P for provider A signed by A, P or B under 64 (thorough: 256) policies, provider known or new, by sync or announcement; 31 alterations and every byte of the signature (3 bits), at two chain positions, followed by a proper chain. Two known findings: ContextID and field boundaries are not covered by the signature format.')

prop('C04', 'Allow, publish and rate-limit policies are enforced at every entry point',
 'With a given policy configuration, a provider is admitted - registered by its own request, by discovery, by an advertisement, by import from another indexer, or reloaded after a restart - and a publisher may announce and may publish for a provider exactly when that configuration says so, over every endpoint, and answers change only when the policy is reconfigured or a peer is allowed or blocked. A refused request changes nothing. A new configuration takes effect atomically: no request is decided by a mixture of the old and the new one.',
 'configurations histories schedules', 'every policy configuration over a small peer set (default allow/deny with exceptions for allow, publish and rate limit), every sequence of registry operations and reconfigurations, every interleaving of a reconfiguration with a request',
 'Tests check a few fixed configurations and never reconfigure concurrently with requests.',
 'internal/registry/policy/policy.go internal/registry/registry.go config/policy.go',
 ['Policy checks under lock @ internal/registry/policy/policy.go', 'policy gates of Register, Discover, load, ImportProviders @ internal/registry/registry.go'],
 ['registration results', 'provider listing', 'policy answers'],
 technique=MC, note=NOTE + 'Bounds: 3 peers, sequences of 3-4 operations with reconfigurations, at the registry and through the HTTP and libp2p endpoints of a complete indexer; up to two reconfigurations in parallel with requests (<=2-3 deviations); every rate-limit policy over two publishers.')

prop('C05', 'Find answers exactly the live records of registered providers',
 'A find request returns for each multihash exactly the (provider, context, metadata) records in the index whose provider is registered and active, with that provider\'s current addresses, and the HTTP and libp2p endpoints agree with each other; the delegated-routing endpoint returns exactly the providers of those records that offer Bitswap. Answering a find request never removes index data of a provider that is still registered, and unknown multihashes yield an empty or not-found answer, never an error of another kind.',
 'inputs histories schedules', 'every small index content and registry state (registered, inactive, removed, unknown), every request of up to a few multihashes over each endpoint',
 'Tests query a fixed index with one registered provider.',
 'server/finder/handler/finder_handler.go server/finder/http/handler.go server/finder/libp2p/handler.go server/reframe/http/handler.go api/v0/finder/model/response.go',
 ['FinderHandler.Find filtering @ server/finder/handler/finder_handler.go'],
 ['responses', 'index contents after the request'], technique=MC,
 note=NOTE + 'Bounds: every placement of records of 3 providers x 2 contexts over 2 multihashes, every registry state of the providers (registered, removed, never, re-registered with other addresses), every request of <=3 multihashes over every endpoint; a find in parallel with another find, an index write or a removal (<=1 deviation). A find that runs while a removed provider is being registered again is finding F21 of C19.')

prop('C06', 'Acknowledged registrations survive crashes and restarts',
 'Once a registration, update or removal of a provider has been acknowledged, a restart after a crash at any later point shows it, with the same provider, addresses, last advertisement and publisher; a crash before the acknowledgement shows the old or the new state and never a mixture. When the datastore fails, the operation reports an error and the state shown after a restart is the old or the new one, and never blocks the registry from starting.',
 'crash_points fault_sequences histories', 'every crash point of every history of up to four registry operations (each unsynced suffix of writes lost), every single datastore fault',
 'Tests restart once after a clean close.',
 'internal/registry/registry.go',
 ['syncPersistProvider: put and sync before acknowledging @ internal/registry/registry.go', 'loadPersistedProviders @ internal/registry/registry.go'],
 ['providers listed after restart'],
 technique=MC, note=NOTE + 'Crash model: a prefix of the datastore write log that includes every synced write survives.')

prop('C07', 'Registry operations are atomic and returned records are immutable',
 'Concurrent registry operations behave as if executed one at a time in some order consistent with real time; no update is lost. A provider record handed out to a reader never changes afterwards and shows a state the provider actually had.',
 'schedules histories', 'every interleaving (up to the deviation bound) of two and three concurrent registry operations and readers',
 'Tests run operations sequentially; the race detector only sees the schedules that happen.',
 'internal/registry/registry.go',
 ['providers map under lock, copy-on-write of records @ internal/registry/registry.go'],
 ['operation results', 'records returned'],
 technique=MC + '; happens-before race detection on every explored schedule', note=NOTE + 'Bounds: 2-3 concurrent clients, one or two operations each.')

prop('C08', 'Signed requests are authenticated and cannot be replayed',
 'A registration, discovery or ingest request is accepted only if its envelope signature is valid for the kind of request and the signer is the peer the request speaks for; any altered byte in the signed content, another record type, or another signer is refused without effect. The same signed request is accepted at most once, concurrently or later, however much time passes, and requests of a peer are accepted only with increasing sequence numbers that are not too old.',
 'inputs histories schedules', 'every alteration class of every request kind, every interleaving of two submissions of the same request, every history of submissions and time steps',
 'Tests check one duplicate, one bad signature, sequentially, at one time.',
 'internal/registry/sequences.go api/v0/ingest/model/register.go api/v0/ingest/model/discover.go api/v0/ingest/model/ingest.go server/ingest/handler/ingest_handler.go',
 ['sequences.check @ internal/registry/sequences.go', 'record.ConsumeTypedEnvelope @ api/v0/ingest/model'],
 ['request results', 'registered providers'],
 technique=MC, note=NOTE + 'Bounds: histories of 5-6 checks and time steps over two peers; 2-3 concurrent submissions.')

prop('C09', 'Every sync request gets its answer',
 'Every explicit sync that is requested while the indexer is running completes: it returns the head it reached or an error within bounded time of the publisher answering, whatever else runs at the same time and whether or not there is anything new to ingest. A sync that returns success has ingested everything up to the returned head.',
 'schedules histories', 'every interleaving of two or three concurrent syncs, announcements and removals for the same and different publishers; every prior state (fresh, fully synced, crashed mid-way, removed)',
 'Tests run one sync at a time against a cooperative publisher.',
 'internal/ingest/ingest.go',
 ['onAdProcessed/distributeEvents fan-out @ internal/ingest/ingest.go', 'Sync wait loop @ internal/ingest/ingest.go'],
 ['result and return of sync requests'], technique=MC + '; deadlocks and hangs are violations',
 note=NOTE + 'Bounds: 2-3 concurrent syncs and announcements, 1-3 advertisements, <=1-2 deviations; faults and crashes of C02.')

prop('C10', 'Announcements are not lost',
 'When a publisher announces a new head and the publisher is reachable and allowed, that head is eventually ingested, even if the announcement arrives while an earlier advertisement of the same provider is being synced or ingested. Announcements from peers that are not allowed cause no fetch.',
 'schedules histories', 'every interleaving of two announcements with the sync and ingestion of an earlier head',
 'Tests announce once and wait, or rely on sleeping in the middle of processing.',
 'internal/ingest/ingest.go',
 ['pending announce per provider @ internal/ingest/ingest.go:Announce, handlePendingAnnounce'],
 ['index contents at quiescence'], technique=MC,
 note=NOTE + 'Bounds: 1-2 further announcements while the first advertisement is at work, <=1-3 deviations; announcements of one publisher are sent one after the other.')

prop('C11', 'Shutdown terminates and leaves nothing running',
 'Closing the indexer\'s components always returns, whatever requests, polls, discoveries or ingestion are in progress; pending requests are answered with a result or an error, nothing crashes, and nothing is written to the store once closing has returned. Closing a second time is harmless.',
 'schedules histories', 'every interleaving (up to the bound) of closing with one or two operations in progress',
 'Tests close idle components.',
 'internal/registry/registry.go internal/ingest/ingest.go',
 ['closing channel, wait groups @ internal/registry/registry.go:Close', 'Ingester.Close @ internal/ingest/ingest.go'],
 ['return of close', 'writes after close', 'goroutines left'],
 technique=MC + '; deadlocks, hangs and panics are violations', note=NOTE + 'Bounds: registry, ingester and daemon; one close with one or two operations in flight (registrations, discoveries, polls, syncs, announcements, removals, reloads; publishers that are slow or do not answer), <=1-3 deviations. A publisher that does not answer delays closing by the HTTP timeouts.')

prop('C12', 'Polling keeps silent providers fresh and removes dead ones',
 'A provider that has not been heard from for the configured interval is polled at its publisher, repeatedly until it is heard from again; one that stays silent beyond the retry and stop limits is deactivated and finally removed, and one that is heard from in time is neither deactivated nor removed. Poll overrides apply to the named provider only.',
 'histories configurations schedules', 'every timeline of contacts over a small number of polling intervals for two providers, with and without overrides and restarts, every interleaving of a poll with an update',
 'Tests check one poll with a hand-set clock offset.',
 'internal/registry/registry.go config/discovery.go command/daemon.go',
 ['pollProviders, poll retry/stop @ internal/registry/registry.go'],
 ['sync requests emitted', 'providers listed', 'deactivation and deletion'],
 technique=MC, note=NOTE + 'Virtual time; the oracle is a timeline model of the poll rules.')

prop('C13', 'Discovery registers only what was discovered',
 'A discovery request registers exactly the provider that the discovery source returned for it, only if the policy allows it; failures, timeouts and mismatches register nothing and report an error. Each discovery address is looked up at most once within the rediscovery wait, concurrently or not, and every discovery request is answered.',
 'histories schedules fault_sequences', 'every sequence of discovery requests, results, failures and time steps over two addresses; every interleaving of two concurrent requests',
 'Tests discover one provider with a mock that always answers.',
 'internal/registry/registry.go internal/registry/discovery/lotus/discoverer.go',
 ['discover runs serialised in registry run loop, rediscoverWait @ internal/registry/registry.go'],
 ['discovery results', 'look-ups made', 'registered providers'],
 technique=MC, note=NOTE + 'The discovery source is a stub driven by the explorer.')

prop('C14', 'Request and response encodings round-trip and errors keep their meaning',
 'Every value the public APIs can carry (find requests and responses, provider records, advertisements to import, signed requests, errors) decodes to an equal value after encoding, and what a client sees over HTTP or libp2p is the value and the status that the server produced. Bytes that are not a valid encoding are refused with an error.',
 'inputs', 'every value of each message type over a small domain, every status/error combination, every truncation of an encoding',
 'Tests encode one example of each message.',
 'api/v0/finder/model/request.go api/v0/finder/model/response.go api/v0/ingest/model/register.go api/v0/error.go internal/httpserver/util.go internal/libp2putil',
 ['MarshalX/UnmarshalX @ api/v0', 'WriteJsonResponse @ internal/httpserver/util.go'],
 ['decoded values', 'HTTP status, headers and body'], technique=MC,
 note=NOTE + 'Bounds: every value of each message type over a small domain of field values (nil, empty, one, several, special characters, extreme sizes), every truncation of each encoding, every status/error combination through the real HTTP and libp2p clients and servers.')

prop('C15', 'Configuration load and reload never take the service down',
 'A configuration that is saved (or upgraded) and loaded is unchanged, a setting left out gets its default, and a file that is truncated or has a setting of the wrong type is refused with an error and left as it is. The daemon runs exactly the servers configured or refuses to start. A reload of the configuration - asked for by request, by signal or because the watched file changed - puts the new policy, rate limit, worker and peering settings in force; if the file is unusable an error is reported and the old settings stay, and if one setting is invalid an error is reported and that setting keeps its old value. Either way every reload request is answered, also when reloads coincide or ingest workers are busy, the daemon keeps serving, can be reloaded again and can be stopped.',
 'configurations histories schedules', 'every combination of up to two settings present, absent or changed; every prefix of a file; every history of up to three reloads with valid and invalid files by request, signal or file watch, and every way two or three reloads coincide',
 'Tests load one default configuration and reload nothing.',
 'config/config.go config/identity.go command/daemon.go command/init.go server/admin/http/handler.go',
 ['reload loop, reloadConfig, reloadPeering @ command/daemon.go', 'Load/populateUnset/UpgradeConfig @ config/config.go'],
 ['effective settings', 'answers of the servers after a reload', 'answers to reload requests'], technique=MC,
 note=NOTE + 'Bounds: any one or two of the 48 settings changed or left out, alone or with a section; all prefixes of two files; all start-up choices of the four servers; histories of 2 (thorough: 3) reloads over 12 files by 3 triggers; coinciding reloads with <=1 (thorough: 2) deviations. The daemon is the real daemonCommand with simulated HTTP transport, libp2p host and in-memory datastore. Saving is not crash-atomic and not claimed to be.')

prop('C16', 'Rate limiting slows transfers only as configured',
 'Within a transfer (the advertisement chain of a sync, or the entries of one advertisement) from a publisher that the rate-limit policy subjects to limiting, blocks are never fetched faster than the configured rate beyond the configured burst, and publishers exempt from limiting are not delayed. A change of the policy or of the rate takes effect on transfers started afterwards, and limiting never loses, reorders or corrupts data nor blocks a sync for ever.',
 'configurations histories schedules', 'every rate-limit policy over two publishers, rates and burst sizes, chains of a few blocks, reconfiguration between and during syncs',
 'Tests check that one limiter value is returned.',
 'internal/ingest/ingest.go internal/registry/policy/policy.go config/ingest.go',
 ['getRateLimiter/setRateLimit @ internal/ingest/ingest.go'],
 ['virtual time at which blocks arrive', 'index contents'], technique=MC,
 note=NOTE + 'Bounds: rates 0,1,4, bursts 1,3,20, every apply/except combination over two publishers, every valid or invalid reconfiguration between two syncs of 3 advertisements with 3-6 chunks; two publishers at once with a concurrent reconfiguration, <=1 deviation. The limiter is per transfer (a go-legs sync), so rates are checked within the advertisement chain of a sync and within the remaining entry chunks of one advertisement.')

prop('C17', 'File imports index every entry of the file',
 'An import of a CID list or a manifest that reports success has put exactly the multihashes of the entries in the file into the index, under the given provider, context and metadata, whatever the line endings, the presence of a final newline or the size of the file. Malformed lines are skipped; a file that has no entry or cannot be read completely, and a failing index, are reported as an error; no import hangs.',
 'inputs fault_sequences', 'every file of up to a few lines over valid entries, blank, malformed and truncated lines and line endings, with and without read faults',
 'Tests import one well-formed generated file.',
 'internal/importer/cidlist.go internal/importer/manifest.go server/admin/http/handler.go command/import.go',
 ['ReadCids/ReadManifest @ internal/importer', 'importCallback @ server/admin/http/handler.go'],
 ['index contents', 'reported errors'], technique=MC + '; hangs are violations',
 note=NOTE + 'Bounds: every file of <=3 (thorough 4) lines over 8-9 line classes and line endings, sizes around the batch size with malformed lines and a failing index write at every batch, lines up to 2 MB, a read fault at every byte with short reads, cancellation and two imports at once (<=1-2 deviations).')

prop('C18', 'Ingestion leaves no temporary data behind',
 'Once the advertisements of a sync have been processed, the entry blocks fetched for them are no longer in the datastore, whether their ingestion succeeded at once, succeeded after retries, or failed permanently; only the data needed to resume or serve remains. Cleaning up never removes a block that a pending ingestion still needs.',
 'histories fault_sequences schedules', 'every small chain with chunked, HAMT and shared entries, with single faults, in every configuration',
 'Tests do not look at what remains in the datastore.',
 'internal/ingest/linksystem.go internal/ingest/ingest.go',
 ['deferred delete of entry blocks @ internal/ingest/linksystem.go'],
 ['datastore keys at quiescence'], technique=MC,
 note=NOTE + 'Bounds as for C01 and C02. A crash may leave blocks of an advertisement that is never ingested again.')

prop('C19', 'Removing a provider removes its data and a return restores it',
 'When a provider is removed, by an operator or because it stayed unresponsive, its registration disappears, no find request returns its data any more, whatever a find request comes across of it is deleted from the index, and the data of other providers stays. If the provider comes back and its chain is synced again, everything its chain says is indexed again.',
 'histories schedules', 'every history of up to four publish/sync/remove steps over two providers; every interleaving of a removal with a sync of the same provider',
 'Tests remove a provider once, at rest, and do not bring it back.',
 'internal/registry/registry.go internal/ingest/ingest.go server/admin/http/handler.go',
 ['RemoveProvider/delete flag through the sync channel @ internal/registry/registry.go', 'autoSync removal @ internal/ingest/ingest.go'],
 ['index contents', 'providers listed'], technique=MC,
 note=NOTE + 'Bounds: all histories of 4-5 steps of publish/sync/announce/remove/find/restart over two providers, all timelines of 3-4 reachable/unreachable phases with automatic removal, removal and find concurrent with a sync (<=1-2 deviations; one known finding).')

prop('C20', 'Each libp2p response reaches the request that asked for it',
 'Every libp2p request gets the response to that very request or an error; responses are never delivered to another request, even when requests run concurrently, time out, are cancelled or the stream breaks. No request blocks for ever.',
 'schedules fault_sequences', 'every interleaving of two or three concurrent requests over one client, with cancellations, timeouts, resets and malformed responses at every point',
 'Tests send sequential requests over a healthy connection.',
 'api/v0/libp2pclient/client.go internal/libp2pserver/server.go api/v0/finder/client/libp2p/client.go api/v0/ingest/client/libp2p/client.go',
 ['message sender lock and stream reuse @ api/v0/libp2pclient/client.go', 'one handler loop per stream @ internal/libp2pserver/server.go'],
 ['responses of requests'], technique=MC + '; hangs are violations',
 note=NOTE + 'Bounds: sequences of 3-4 requests and 2-3 concurrent requests over one client, with one fault or cancellation at every point (delay beyond the timeout, reset, truncated, malformed or error response), <=2 deviations; every malformed request at the server. In-memory streams stand for libp2p.')

prop('C21', 'Malformed input never takes the service down',
 'No request, announcement, advertisement, peer record or stored value, however malformed, crashes the service or blocks requests of others; it is refused with an error or ignored, and has no effect on what is registered or indexed.',
 'inputs fault_sequences', 'every malformed-input class of every entry point (missing, empty, wrong type, truncated, oversized fields)',
 'Tests send well-formed input plus a few fixed errors.',
 'internal/registry/registry.go internal/ingest/linksystem.go server/ingest/handler/ingest_handler.go server/finder/http/handler.go server/finder/libp2p/handler.go server/admin/http/handler.go',
 ['validation at each entry point @ server, internal/registry'],
 ['process alive', 'registered providers', 'index contents'],
 technique=MC + '; panics and hangs are violations', note=NOTE + 'Bounds: every truncation and every single-byte change (5 values) of one good request of every kind over HTTP and libp2p, every JSON value replaced by 15 others, removed or doubled; every route with every method, 18 bad parameters and 7 bodies; every such change of an advertisement, entry chunk or HAMT node served by a publisher; stored registry values likewise.')

prop('C22', 'Operator requests do what they ask for, and the provider list tells the truth',
 'A sync requested over the admin interface ingests everything that is new at the publisher, or at most the newest N advertisements if a depth N is given or configured, and ingests what was ingested before again only if a resync is asked for; a sync of a publisher that cannot be reached changes nothing. Importing providers from another indexer registers exactly the providers listed there that are allowed and not registered yet, and ingests their chains from their publishers. At any time the provider list shows for every registered provider its latest addresses, the publisher and address its latest advertisement came from, and the newest advertisement ingested.',
 'histories configurations', 'every history of up to four operator requests (sync with every depth and resync setting, import, registration, announcement, unreachable publisher) over chains of every length and configured limit',
 'Tests sync once with one depth and check one entry; they do not combine requests.',
 'server/admin/http/handler.go internal/ingest/ingest.go internal/registry/registry.go api/v0/admin/client/http/client.go',
 ['sync handler @ server/admin/http/handler.go', 'makeLimitedDepthSelector @ internal/ingest/ingest.go', 'autoSync @ internal/ingest/ingest.go', 'ImportProviders @ internal/registry/registry.go'],
 ['indexer contents', 'provider list'], technique=MC,
 note=NOTE + 'Bounds: histories of 3 (thorough: 4) of 12 requests, chains of 1-3 advertisements at start, depth limit configured or not.')


prop('C23', 'Each command does on the indexer what its arguments say',
 'Every operator command (register, find over HTTP or libp2p, providers list and get, import of a CID list or manifest, admin sync, allow, block, import-providers, reload-config, log settings) acts on the indexer named by its flag or, if none is given, by the configuration, has exactly the effect its arguments ask for, prints what the indexer then knows, and fails exactly when the indexer refuses the request. A file made by the synthetic command has as many entries as asked for and can be imported.',
 'histories configurations', 'every history of up to three commands with the indexer named either way',
 'The commands have no tests.',
 'command/admin.go command/find.go command/import.go command/providers.go command/register.go command/config.go command/flags.go command/synthetic.go',
 ['command actions @ command', 'cliIndexer @ command/flags.go'],
 ['command output and exit', 'index', 'provider list'], technique=MC,
 note=NOTE + 'Bounds: histories of 2 (thorough: 3) of 16 commands against a complete running daemon, then find and providers; synthetic files of 13 sizes of both types.')
