#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the single place the property texts live)."""
import json, os
S = 'crates/symbolicator-service/src/'
P = []
def p(id, title, statement, over, qtext, why, files, mech, state=(), observe='', hook=None):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files, state=[dict(name=n, meaning=m) for n, m in state],
                     mechanism=[dict(name=n, where=w) for n, w in mech], observe_at=[observe], hook_needed=hook)))

# ------------------------------------------------------------------ caches
p('C01', 'Concurrent requests for one cached item share a single computation',
  'While an item that is not cached is being computed, every other request for the same item waits for that computation and gets its outcome: no second computation of the item runs at the same time. A request that is abandoned or whose computation panics never blocks the others; each remaining request still gets an answer.',
  ['schedules', 'histories', 'fault_sequences'], 'every interleaving of any number of requests for a few keys on one or several worker threads, with requests dropped at any point and computations that fail, panic or are slow',
  'The tests issue a handful of requests under one scheduler and never cancel or panic one in the middle.',
  [S + 'caching/memory.rs'], [('compute_memoized', S + 'caching/memory.rs'), ('spawn_refresh', S + 'caching/memory.rs')],
  [('in-memory cache', 'one slot per key that concurrent requests coalesce on'), ('refreshes', 'keys being refreshed in the background')], 'results of cache requests and the number of computations started and running per key')
p('C02', 'A cache answer is always exactly what was computed for that item',
  'Whatever a request for an item is answered with, it is byte for byte the complete result some computation produced for that very item and cache version, or an error: never truncated, extended, mixed with another item, or left over from an interrupted write. This holds through process crashes at any point, failing, short and full disks, concurrent cache cleanup and restarts.',
  ['schedules', 'crash_points', 'fault_sequences', 'histories'], 'every interleaving, every crash point and every sequence of disk faults over histories of requests, cleanups and restarts sharing one cache directory',
  'No test kills the process or fails a write; the tests only read back what an undisturbed run stored.',
  [S + 'caching/memory.rs', S + 'caching/fs.rs', S + 'caching/cache_error.rs', S + 'caching/metadata.rs'],
  [('lookup_or_compute / compute', S + 'caching/memory.rs'), ('write_cache_file (persist)', S + 'caching/memory.rs'), ('open_cachefile, CacheContents::from_bytes', S + 'caching/fs.rs'), ('CacheError::write', S + 'caching/cache_error.rs')],
  [('cache directory', 'files named by key, holding contents or an error marker'), ('tmp directory', 'files being computed')], 'bytes and errors returned by cache requests, and the files in the cache directory')
p('C03', 'Negative results are remembered for their configured time, then retried',
  'A failed lookup is answered from the cache with the same kind of error and details until the configured retry time for that kind has passed, across restarts, and is computed again once it has. Unexpected internal failures and interrupted computations are not remembered, and a remembered malformed result is retried after a restart of the process at the latest. An outcome is remembered for at least its configured time while nothing disturbs the disk.',
  ['histories', 'configurations', 'schedules', 'crash_points'], 'every history of requests, restarts and clock advances or jumps, for every combination of configured retry times (including none)',
  'Expiry depends on clocks and process restarts; the tests cover two or three fixed ages with real files.',
  [S + 'caching/fs.rs', S + 'caching/cache_error.rs', S + 'caching/memory.rs', S + 'config.rs'],
  [('ExpirationStrategy / expiration_strategy', S + 'caching/fs.rs'), ('check_expiry', S + 'caching/fs.rs'), ('CacheError::write / parse', S + 'caching/cache_error.rs')],
  [('mtime of cache files', 'age of an entry'), ('retry_misses_after, retry_malformed_after, max_unused_for', 'configured life times')], 'number of computations and the errors returned over time')
p('C04', 'Cleanup removes exactly the expired cache entries',
  'A cleanup removes every cache entry whose configured life time has passed and nothing else: an entry that was used within its life time stays, also when it is used while the cleanup runs. A dry run deletes nothing, and cleanup never makes a concurrent request fail or return anything other than the item.',
  ['histories', 'schedules', 'configurations', 'fault_sequences'], 'every history of uses, clock advances and cleanups, with cleanup interleaved arbitrarily with requests, and with file operations that fail',
  'Tests run cleanup alone on a directory of prepared files and never concurrently with use or against an independent model of ages.',
  [S + 'caching/cleanup.rs', S + 'caching/fs.rs', S + 'caching/memory.rs'],
  [('cleanup / cleanup_directory', S + 'caching/cleanup.rs'), ('touch on use', S + 'caching/fs.rs')], [('mtime', 'last use of an entry (kept roughly)'), ('metadata files', 'belong to an entry')], 'files in the cache directory before and after, results of requests')
p('C05', 'Outdated cache versions are served as fallback and refreshed once, within limits',
  'When only an entry of an older, still supported cache version exists, a request is answered from it right away as long as background refreshes are available, and the item is recomputed in the background exactly once at a time; never more refreshes than configured run at the same time. Entries of unsupported or newer versions are never used, and once a refresh has finished, requests get the refreshed item.',
  ['schedules', 'histories', 'configurations'], 'every interleaving of requests for outdated items, every set of entries of different versions on disk, every configured limit of background refreshes',
  'Tests look at one or two items under one schedule; the limit and the deduplication are races by nature.',
  [S + 'caching/memory.rs', S + 'caches/versions.rs'], [('lookup_local_cache, spawn_refresh', S + 'caching/memory.rs'), ('CacheVersions', S + 'caches/versions.rs')],
  [('fallback versions', 'versions still readable'), ('max_lazy_refreshes', 'budget of background refreshes')], 'answers to requests and computations started or running')
p('C06', 'The cache heals: after faults stop, every item can be served again',
  'Once crashes and disk errors stop, a request for any item is answered with its correct result again, no later than the retry time of whatever error was remembered, and further requests for it are answered from the cache without recomputing. Temporary files left by interrupted work are gone after a restart and no request hangs.',
  ['crash_points', 'fault_sequences', 'schedules'], 'every sequence of crashes and disk faults during any operation, followed by a fault-free period',
  'Recovery is never exercised: no test interrupts a store or makes one fail.',
  [S + 'caching/memory.rs', S + 'caching/mod.rs', S + 'caching/fs.rs', S + 'caching/config.rs'], [('Caches::from_config, clear_tmp', S + 'caching/mod.rs'), ('write_cache_file', S + 'caching/memory.rs')],
  [('cache and tmp directories', 'all durable state')], 'results and computation counts after the last fault; files in the tmp directory')
p('C07', 'Items of one project are never served to another',
  'An item that was fetched for a private scope is only ever served to requests for that scope; items of public sources are shared by all scopes. Two requests that differ in scope, source, location or other parts of the identity of the item never receive each other\'s content, no matter which of them came first.',
  ['histories', 'schedules', 'inputs'], 'every interleaving and history of requests from several scopes and sources for equally named files, across restarts',
  'Tests use one scope at a time.',
  [S + 'caching/cache_key.rs', S + 'objects/data_cache.rs', S + 'download/index.rs', S + 'types.rs'], [('CacheKeyBuilder', S + 'caching/cache_key.rs')], [('cache key', 'hash of scope and location')], 'contents returned to requests of different scopes')

# ------------------------------------------------------------------ shared cache
p('X01', 'A failing shared cache never changes the result of a request',
  'With a shared cache configured, every request gets the same result as without one, whatever the shared cache backend does: errors, missing permissions, stalled or cut connections, wrong responses, a full or failing shared disk. Requests are delayed by it only for a bounded time: about a second until it answers, and a minute for a transfer.',
  ['fault_sequences', 'schedules', 'histories'], 'every sequence of faults of the shared cache backend (remote store or file system) during fetches and stores',
  'Tests use a working file system backend or a real bucket, never one that fails half-way.',
  [S + 'caching/shared_cache/mod.rs', S + 'caching/memory.rs'], [('SharedCacheService::fetch / store', S + 'caching/shared_cache/mod.rs'), ('compute', S + 'caching/memory.rs')], [('temporary file', 'target of a fetch, reused by the computation')], 'results of requests with and without the shared cache')
p('X02', 'Only complete, successful items enter or leave the shared cache',
  'An item found in the shared cache is used only if all of it was received; a partial transfer is discarded without a trace. Whatever is stored in the shared cache under the name of an item is exactly that item, complete from the moment it becomes visible; failed results are never stored, and an existing item is not replaced. An item that is there is used by every instance that shares the cache and lacks it.',
  ['fault_sequences', 'crash_points', 'schedules'], 'every interleaving of several processes storing and fetching the same items, with crashes, short writes and broken connections at any point',
  'Concurrent writers, crashes while writing and broken transfers are not tested.',
  [S + 'caching/shared_cache/mod.rs'], [('GcsState::fetch / store / exists', S + 'caching/shared_cache/mod.rs'), ('FilesystemSharedCacheConfig fetch / store', S + 'caching/shared_cache/mod.rs')], [('shared objects', 'files or bucket objects')], 'contents of the shared store and results of requests')
p('X03', 'Uploads to the shared cache are bounded and happen in the background',
  'Storing to the shared cache never delays a request and never runs more uploads at the same time than configured; at most the configured number of uploads wait, further ones are dropped, and a finished, failed or stalled upload always makes room for the next within about a minute. What fits is stored.',
  ['schedules', 'fault_sequences', 'configurations'], 'every interleaving of stores with slow, failing and stalled uploads, for all configured limits',
  'No test creates more than one upload or a slow one.',
  [S + 'caching/shared_cache/mod.rs'], [('upload_worker, upload queue', S + 'caching/shared_cache/mod.rs')], [('upload queue', 'bounded channel'), ('uploads counter', 'running uploads')], 'number of uploads in progress at the backend, durations of requests')

# ------------------------------------------------------------------ downloads
p('D01', 'A successful download is byte for byte the remote file',
  'Whenever a download is reported as successful, the downloaded file has exactly the bytes the server holds for it, decompressed if it is served compressed: no byte missing, duplicated, out of place or left from an earlier attempt. This holds for any server behaviour with range requests, any way the body is split up and delayed, connections cut at any point, retries, and disk errors.',
  ['inputs', 'fault_sequences', 'schedules'], 'every file size and chunking, every standards-conforming or faulty server response to any of the (concurrent) requests of a download, every disk fault, every schedule',
  'Tests download a few small files from a well-behaved local server; parts arriving in different orders, cut or wrong are not reachable.',
  [S + 'download/mod.rs', S + 'download/destination.rs', S + 'download/partial.rs', S + 'download/fetch_file.rs', S + 'download/compression.rs', S + 'download/s3.rs', S + 'download/filesystem.rs'],
  [('do_download_reqwest_range', S + 'download/mod.rs'), ('split / BytesContentRange', S + 'download/partial.rs'), ('MultiStreamDestination', S + 'download/destination.rs'), ('maybe_decompress_file', S + 'download/compression.rs')],
  [('temporary file', 'destination shared by the streams of a download')], 'contents of the downloaded file versus the file of the simulated server')
p('D02', 'Download failures are reported truthfully and retried only if it can help',
  'A download of a file the server says does not exist (404, 410) ends as not found and one the server refuses (401, 403) ends as permission denied, each after a single attempt; any other failure ends as a download error or timeout after at most three attempts, and succeeds if one of these attempts does. A file that exists is never reported as not found because of a network fault, timeout or server error.',
  ['fault_sequences', 'schedules'], 'every sequence of server answers, network faults and timeouts over the attempts of a download, for every kind of source',
  'The number and order of attempts under mixed failures is only reachable with controlled time and network.',
  [S + 'download/mod.rs', S + 'utils/futures.rs', S + 'download/s3.rs', S + 'download/gcs.rs', S + 'download/sentry.rs'], [('retry', S + 'utils/futures.rs'), ('status_to_error', S + 'download/mod.rs')], [], 'error of the download and requests seen by the server')
p('D03', 'Every download finishes within its configured time limits',
  'A download, including all its retries, ends with a result within the time given by the configured connect, response and transfer limits, however slow the server is or wherever it stalls; a download whose parts all arrive within the limits is not cut off. A download that nobody waits for any more is cancelled.',
  ['fault_sequences', 'schedules', 'configurations'], 'every placement of stalls and delays in connection, response head and body, for all configured limits',
  'Minutes of waiting cannot be tested with real time.',
  [S + 'download/mod.rs', S + 'utils/http.rs', S + 'utils/futures.rs'], [('content_length_timeout', S + 'download/mod.rs'), ('execute (head timeout)', S + 'download/mod.rs'), ('CancelOnDrop', S + 'utils/futures.rs')], [], 'simulated time between start and end of a download')
p('D04', 'Hosts that keep failing are blocked for the configured time, and only those',
  'A host with at least the configured number of download failures within the time window is not contacted again for the block time, and is contacted again afterwards; failures below the threshold, missing files, refused permissions, other hosts, hosts excluded from blocking and a disabled deny list never lead to blocking. Clock jumps do not crash or disable this.',
  ['histories', 'schedules', 'configurations', 'fault_sequences'], 'every history of failing and successful downloads from several hosts over time, for every threshold, window and block time, with concurrent downloads and clock jumps',
  'Two unit tests register failures by hand with sleeps; concurrent failures, bucket boundaries and clock jumps are not reached.',
  [S + 'download/mod.rs'], [('HostDenyList::register_failure / is_blocked', S + 'download/mod.rs')], [('failures per host', 'ring of time buckets'), ('blocked hosts', 'hosts with the end of their block')], 'requests seen by the simulated servers over time')
p('D05', 'Downloads from untrusted sources never reach internal addresses',
  'Unless explicitly allowed by the configuration, a download from a source given by a user never opens a connection to a reserved or private network address: not through the host of the source, DNS answers, redirects or addresses written as numbers. Credentials of a source are only sent to the host of the source, and certificates are only left unchecked for sources configured so.',
  ['inputs', 'fault_sequences', 'configurations', 'histories'], 'every combination of DNS answers, redirect chains and address notations, also changing over retries',
  'Tests try one local address.',
  [S + 'utils/http.rs', S + 'download/mod.rs', S + 'download/http.rs'], [('is_external_ip, RESERVED_IP_BLOCKS', S + 'utils/http.rs'), ('create_client', S + 'utils/http.rs')], [], 'addresses connected to and headers received in the simulated network')
p('D06', 'Project file searches are shared and cached for their time, failures are not',
  'Concurrent and repeated searches for the same files of a project share one successful answer for the configured time and are fetched again afterwards; a failed search (after up to three attempts) gives no files to those waiting and is tried anew by the next one. Answers for different queries or credentials are never mixed up.',
  ['schedules', 'histories', 'fault_sequences'], 'every interleaving of searches with failing, slow and successful server answers over time, with searches abandoned at any point',
  'Only a single search against a mock server is tested.',
  [S + 'download/sentry.rs'], [('cached_sentry_search', S + 'download/sentry.rs')], [('dif cache', 'answers by query')], 'requests seen by the server and answers to searches')
p('D07', 'Access tokens are shared while valid and never used after they expire',
  'A download from a token-protected bucket always uses a token that has not expired and belongs to the credentials of the source; a token is requested at most once at a time per credentials and reused until shortly before it expires, whatever happens to the system clock. A failed token request fails only the downloads waiting for it and is repeated by the next download.',
  ['schedules', 'histories', 'fault_sequences'], 'every interleaving and history of downloads with several credentials over time, with failing and slow token requests',
  'Needs an hour of time and failing token endpoints.',
  [S + 'download/gcs.rs', S + 'utils/gcs.rs'], [('get_token / or_insert_with_if', S + 'download/gcs.rs'), ('GcsToken::is_expired', S + 'utils/gcs.rs')], [('token cache', 'token by credentials')], 'authorization headers received by the bucket server versus issued tokens')
p('D08', 'A symbol-server index is only used when it is complete',
  'For a source with an index, a file that the index of the server lists is never skipped because of a failed, partial or outdated download of the index; files the index does not list are not requested. When the server publishes new index segments they are picked up within a day, or, after failures, as soon as those are retried, also after restarts and clock changes.',
  ['fault_sequences', 'histories', 'schedules', 'crash_points'], 'every sequence of failures while fetching the last-id file and index segments, growth of the index over time, restarts and clock jumps',
  'Tests fetch one static index from a working server.',
  [S + 'download/index.rs', 'crates/symbolicator-sources/src/index.rs'], [('fetch_symstore_index, download_index_segment', S + 'download/index.rs'), ('fetch_symstore_last_id_memoized', S + 'download/index.rs')], [('last id', 'number of segments the server has'), ('segments', 'cached files')], 'requests seen by the symbol server, results of lookups')

# ------------------------------------------------------------------ objects
p('O01', 'Object lookup picks the best file, independent of timing',
  'Looking up a debug file returns the file preferred by the documented criteria among all that could be fetched: suitable for the purpose first, and otherwise by the order of the configured sources and locations. The order in which downloads finish, retries and caching never changes which file is chosen.',
  ['schedules', 'inputs', 'fault_sequences'], 'every completion order of the downloads of a lookup, every assignment of contents and failures to sources',
  'The tests see only the completion order their local server happens to produce.',
  [S + 'objects/mod.rs', S + 'objects/meta_cache.rs', S + 'types.rs'], [('select_meta / find', S + 'objects/mod.rs'), ('ObjectFeatures', S + 'types.rs')], [], 'chosen object of a lookup')
p('O02', 'The report of searched locations is complete and truthful',
  'The result of a lookup names every location that was searched exactly once, each with what really happened there: found, missing, no permission, malformed or failed with the cause, and with what the file contains. No location that could hold the file is left out of the search.',
  ['schedules', 'fault_sequences', 'inputs'], 'every combination of outcomes per location and every completion order',
  'Tests compare a few fixed reports.',
  [S + 'objects/candidates.rs', S + 'objects/mod.rs'], [('AllObjectCandidates', S + 'objects/candidates.rs')], [], 'candidate list of a lookup versus the log of the simulated servers')
p('O03', 'A debug file at its documented path in a configured source is found',
  'A debug file that is stored in a source under the path its documented directory layout prescribes, matches the configured file types and path filters, is found by a lookup for it from any kind of source that is reachable. A file that the filters exclude is never requested.',
  ['inputs', 'configurations', 'schedules', 'fault_sequences'], 'every layout, casing, file type, source kind and filter, with unrelated sources failing at the same time',
  'Unit tests list expected paths for one or two identifiers per layout; no test runs a lookup through every kind of source.',
  ['crates/symbolicator-sources/src/paths.rs', 'crates/symbolicator-sources/src/remotefile.rs', 'crates/symbolicator-sources/src/sources.rs', S + 'download/mod.rs'], [('get_directory_paths', 'crates/symbolicator-sources/src/paths.rs'), ('SourceFilters', 'crates/symbolicator-sources/src/sources.rs'), ('list_files', S + 'download/mod.rs')], [], 'files found by lookups and requests seen by simulated sources')
p('O04', 'The symbol server proxy serves the file that a path names',
  'With the proxy enabled, a request for the path a Microsoft symbol server uses for a module (name/signature/name, in any letter case, for PE, PDB, ELF and Mach-O files, executables and debug files) is answered with exactly the bytes and length of the file that the configured sources hold for this module and that suits debugging best (HEAD: the length alone). Paths that do not have this form, modules without a suitable file, and every path while the proxy is disabled are answered with 404, and no source is contacted for files that no path named; a file that exists but cannot be obtained is answered with a server error.',
  ['inputs', 'configurations', 'schedules', 'fault_sequences'], 'every module, letter case and damaged path, every kind of source and layout behind the proxy, concurrent requests, slow and failing sources, restarts',
  'The only test requests one PDB file of one HTTP source; unit tests parse a dozen paths.',
  ['crates/symbolicator/src/endpoints/proxy.rs', 'crates/symbolicator-sources/src/paths.rs'], [('proxy_symstore_request', 'crates/symbolicator/src/endpoints/proxy.rs'), ('parse_symstore_path', 'crates/symbolicator-sources/src/paths.rs')], [], 'responses of the endpoint and requests seen by simulated sources')

# ------------------------------------------------------------------ request service
p('R01', 'Every accepted request ends in exactly one final response',
  'A request that was accepted is reported as pending until its work ends and from then on with one unchanging final response (completed, failed, timed out or internal error), to any number of concurrent polls, for at least a minute after it ended; an unknown identifier is never reported as pending. Work that fails or exceeds fifteen minutes also ends in a final response; if it panics, those waiting for the response are told of an internal error and the request is then forgotten.',
  ['schedules', 'fault_sequences', 'histories'], 'every interleaving of requests and polls with any timeouts, with work that succeeds, fails, panics, stalls or takes arbitrarily long',
  'Tests poll one request; panics, time limits and concurrent polls at the moment of completion are not covered.',
  ['crates/symbolicator/src/service.rs'], [('create_symbolication_request', 'crates/symbolicator/src/service.rs'), ('get_response / wrap_response_channel', 'crates/symbolicator/src/service.rs')], [('requests', 'pending and recently finished requests'), ('CallOnDrop token', 'removes a request whose future is dropped')], 'responses to polls')
p('R02', 'The limit of concurrent requests is kept and slots always come back',
  'No more requests than configured are in progress at the same time; further ones are rejected. A request that has ended in any way, including failures, panics and timeouts, no longer counts, so a service without running work always accepts requests up to its limit.',
  ['schedules', 'fault_sequences', 'configurations', 'histories'], 'every interleaving of request creation and completion for all limits, with work that fails, panics or times out',
  'One test fills the limit once, sequentially.',
  ['crates/symbolicator/src/service.rs'], [('current_requests', 'crates/symbolicator/src/service.rs')], [('current_requests', 'number of requests in progress')], 'acceptance and rejection of requests versus the work in progress')

# ------------------------------------------------------------------ metrics
p('M01', 'No reported metric value is lost or counted twice',
  'The sum of the values sent for a counter equals the sum of all increments made, from any number of threads and at any time relative to the periodic sending; every value given to a distribution is sent exactly once, and a gauge shows a value it was really set to.',
  ['schedules', 'histories'], 'every interleaving of recording threads, starting and ending threads, and the sending thread',
  'No test covers the aggregator.',
  [S + 'metrics.rs'], [('make_aggregator, LocalAggregator', S + 'metrics.rs')], [('thread-local aggregators', 'values recorded since the last sending')], 'lines sent versus values recorded')

# ------------------------------------------------------------------ symsorter
p('S01', 'When sorting succeeds, every debug file is in the output, byte for byte',
  'If the sorting tool ends successfully, every debug file in its inputs (plain files, archives with several architectures, zip archives) is in the output under the path of its identifier with exactly the content of the input, compressed or not as asked, along with its metadata. Duplicates of one file never cause another file to be left out.',
  ['schedules', 'inputs', 'fault_sequences'], 'every interleaving of the worker threads, every set of input files with duplicates and multi-architecture archives, and disk errors',
  'The tool has no tests that run it; duplicates and archives interact through worker scheduling.',
  ['crates/symsorter/src/app.rs', 'crates/symsorter/src/utils.rs'], [('process_file', 'crates/symsorter/src/app.rs'), ('sort_files', 'crates/symsorter/src/app.rs')], [('output directory', 'shared by the workers')], 'exit status and output directory')
p('S02', 'The sorted output does not depend on thread timing',
  'Sorting the same inputs gives the same set of output files with the same contents and the same set of identifiers for every number and interleaving of worker threads, except for the order of identifiers, time stamps, and which of several equal files is named as origin. Where different files share identifier and kind, one of them is kept whole; the metadata stored next to a file describes that file.',
  ['schedules', 'inputs'], 'every interleaving and number of worker threads for inputs with colliding identifiers, sources and archives',
  'Nothing controls the worker schedule in any test.',
  ['crates/symsorter/src/app.rs'], [('par_bridge workers', 'crates/symsorter/src/app.rs'), ('source_candidates', 'crates/symsorter/src/app.rs')], [], 'output directories of runs under different schedules')
p('S03', 'The bundle index lists exactly the identifiers that were sorted',
  'After a successful run with a bundle identifier, the bundle\'s index file names every identifier of the debug files in its inputs once per sorted file and nothing else, and every sorted file refers back to the bundle. With several bundles each index names the files of its own input. The numbers of debug files and source bundles that the tool prints are those of the files it sorted.',
  ['schedules', 'inputs', 'histories'], 'every interleaving of workers and every set of inputs with duplicates, archives and several bundles, also repeated into one output',
  'Not tested at all.',
  ['crates/symsorter/src/app.rs'], [('BundleMeta writing, refs', 'crates/symsorter/src/app.rs')], [], 'bundle index and references in the output')
p('S04', 'An interrupted or failed sort can be repeated to completion',
  'If a run of the sorting tool is interrupted at any point or fails on a disk error, running it again on the same inputs and output ends with the same output as an undisturbed run: no incomplete file stays in the output as if it had been sorted. Unless errors are to be ignored, a run hit by a disk error never reports success with an incomplete output.',
  ['crash_points', 'fault_sequences', 'schedules'], 'every crash point and every failing, short or full write in any worker, followed by a repeated run',
  'Crashes and disk faults are never injected.',
  ['crates/symsorter/src/app.rs'], [('create_new + copy', 'crates/symsorter/src/app.rs')], [('output files', 'visible under their final name')], 'output directory after the repeated run')
p('S05', 'A broken input file only affects itself',
  'When errors are to be ignored, broken files and archives are skipped with a message and every other debug file is sorted as if the broken ones were not there; otherwise a broken file makes the run fail with a message naming it. Files that are not debug files are ignored either way.',
  ['inputs', 'schedules', 'fault_sequences'], 'every mix of good, broken and foreign files in directories and archives, for every interleaving',
  'Not tested at all.',
  ['crates/symsorter/src/app.rs'], [('maybe_ignore_error', 'crates/symsorter/src/app.rs'), ('process_zip_archive', 'crates/symsorter/src/app.rs')], [], 'exit status, messages and output')

# ------------------------------------------------------------------ wasm-split
p('W01', 'When splitting a module succeeds, all output files are complete and agree',
  'If the splitting tool ends successfully, each file it was asked to write is a complete module carrying the build identifier that was printed, and the main file refers to the debug file; if any of them could not be written completely, the tool reports failure.',
  ['fault_sequences', 'inputs'], 'every failing, short or full write at any point, for every combination of options',
  'The tool has no tests; failing disks are not reachable.',
  ['crates/wasm-split/src/main.rs'], [('encode_into', 'crates/wasm-split/src/main.rs')], [], 'exit status, printed identifier and output files')
p('W02', 'Splitting keeps the code and the identity of a module through any history',
  'Through any sequence of runs of the splitting tool on its own outputs, all sections other than debug information that was asked to be stripped are kept unchanged, the debug file keeps everything, and once a module has a build identifier it keeps it, whatever identifier is asked for; without one it gets the identifier asked for or a new one of its own. A run that fails before it writes leaves its input untouched.',
  ['histories', 'inputs', 'configurations', 'fault_sequences'], 'every sequence of runs with any options on modules with any sections, with runs that fail in between',
  'The tool has no tests.',
  ['crates/wasm-split/src/main.rs'], [('section handling', 'crates/wasm-split/src/main.rs')], [], 'sections of output modules')

# ------------------------------------------------------------------ events (N02, N04, N05: not addressed)
p('N01', 'JavaScript files resolve to the best match, whatever was asked before',
  'For a JavaScript frame, the minified file, its source map and the original source are taken from the first place of the documented order that has them: an artifact bundle by debug id, an artifact bundle by one of the candidate addresses, a single artifact of the release, the web. The resolved frames, source context, errors and reported attempts depend only on what these places hold and on the request, not on earlier or concurrent requests, caches, evictions, restarts or failures that went away. Web servers are only asked if the request allows it for that host; tokens and scraping headers are only sent where they belong.',
  ['inputs', 'schedules', 'fault_sequences', 'crash_points', 'histories'], 'every combination of artifacts in bundles, releases and the web, sequence and overlap of requests, failures, crashes, evictions and changes of files on the web',
  'Fixed events are tested one at a time with empty caches; no test asks for two events that share files.',
  ['crates/symbolicator-js/src/lookup.rs'], [('SourceMapLookup', 'crates/symbolicator-js/src/lookup.rs'), ('ArtifactFetcher', 'crates/symbolicator-js/src/lookup.rs'), ('symbolicate_js', 'crates/symbolicator-js/src/symbolication.rs'), ('SentryLookupApi', 'crates/symbolicator-js/src/api_lookup.rs')], [('files in bundles', 'shared by requests'), ('source map caches', 'on disk, by content')], 'responses to JavaScript requests and the requests made for them')
p('N02', 'Stack frames are mapped to the right function, file and line',
  'For every native frame with an available debug file, the reported functions, files, lines and inlined frames are those the debug file describes for that address.',
  ['inputs'], 'every debug file and address', 'Fixed fixtures only.',
  ['crates/symbolicator-native/src/symbolication/native.rs'], [('symbolicate_native_frame', 'crates/symbolicator-native/src/symbolication/native.rs')], [], 'symbolicated frames')
p('N03', 'Obfuscated JVM names are mapped back to the original names',
  'For every JVM exception, frame and class, names, lines and files are mapped back as the first mapping file of the request that knows them says; what no mapping file knows stays unchanged, and source context comes from the first source bundle that has the file. A mapping file that is missing, damaged in any way or without line information is reported as such and affects nothing else. The response does not depend on earlier or concurrent requests, restarts, evictions or failures that went away, and files of other projects are never used.',
  ['inputs', 'schedules', 'fault_sequences', 'crash_points', 'histories'], 'every set of mapping files and source bundles, good or damaged, in any number of projects, and every sequence and overlap of requests, failures, crashes and restarts',
  'Fixed fixtures only; damaged or compressed mapping files, several projects and repeated requests are not tested.',
  ['crates/symbolicator-proguard/src/symbolication.rs', 'crates/symbolicator-proguard/src/service.rs'], [('symbolicate_jvm', 'crates/symbolicator-proguard/src/symbolication.rs'), ('download_proguard_file', 'crates/symbolicator-proguard/src/service.rs')], [('proguard cache', 'parsed mapping files by scope and file')], 'responses to JVM requests and the requests made for them')
p('N04', 'A minidump is turned into the threads, modules and crash reason it holds',
  'For every valid minidump the threads, modules, registers and crash reason are reported, and an invalid one is rejected with an error without taking down the service.',
  ['inputs'], 'every minidump', 'Fixed fixtures only.',
  ['crates/symbolicator-native/src/symbolication/process_minidump.rs'], [('process_minidump', 'crates/symbolicator-native/src/symbolication/process_minidump.rs')], [], 'response')
p('N05', 'The HTTP API accepts documented requests and rejects all others',
  'Every documented request form is accepted and answered in the documented format, and malformed requests get a client error without side effects.',
  ['inputs'], 'every request', 'A few requests are tested.',
  ['crates/symbolicator/src/endpoints/mod.rs'], [('create_app', 'crates/symbolicator/src/endpoints/mod.rs')], [], 'HTTP responses')

if __name__ == '__main__':
    out = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'properties.jsonl')
    with open(out, 'w') as f:
        for x in P:
            assert len(x['title']) <= 80, (x['id'], len(x['title']))
            f.write(json.dumps(x) + '\n')
    print(len(P))
