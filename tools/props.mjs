// Generates /verif/properties.jsonl (node tools/props.mjs). One entry per property.
import { writeFileSync } from 'node:fs';
const core = 'packages/experiment-core/src/', br = 'packages/experiment-browser/src/', co = 'packages/analytics-connector/src/', tag = 'packages/experiment-tag/src/';
const P = [];
const p = (id, title, statement, over, text, why, files, mech) =>
  P.push({ id, title, statement, quantifier: { over, text }, why_tests_cant: why, anchors: { files, mechanism: mech.map(([name, where]) => ({ name, where })) } });

// ---------------------------------------------------------------- evaluation core
p('E01', 'Bucketing hash is MurmurHash3 x86-32 of the UTF-8 key',
  'For every string and every 32-bit seed, the bucketing hash equals MurmurHash3 (x86, 32-bit) of the UTF-8 encoding of the string (unpaired surrogates encoded as three bytes), returned as an unsigned 32-bit integer. The same string therefore hashes identically here, on every other Amplitude SDK and on the server.',
  ['inputs'], 'every string (any length, any UTF-16 content) and every seed',
  'The tests compare a word list of ASCII-ish keys; every length class mod 4, non-BMP and unpaired-surrogate text and sign-bit patterns form an unbounded input space.',
  [core + 'evaluation/murmur3.ts', core + 'evaluation/utils.ts'], [['hash body, tail and finaliser', core + 'evaluation/murmur3.ts hash32x86/mix32/fmix32/rotateLeft/readIntLe/reverseBytes'], ['UTF-8 encoding', core + 'evaluation/utils.ts stringToUtf8ByteArray']]);
p('E02', 'Bucketing is deterministic and picks the first range containing the hash',
  'With h the hash of "<salt>/<bucketing value>", a bucketed segment selects the first distribution whose half-open range contains floor(h/100) inside the first allocations whose half-open range contains h mod 100 (in listed order, moving on to later allocations when no distribution hits), and otherwise the segment\'s default variant. A segment without a bucket, or a user whose bucketing value is absent or empty, always gets the segment\'s default variant. The outcome depends on nothing but the segment and the bucketing value.',
  ['inputs', 'configurations'], 'every segment configuration and every evaluation context',
  'Tests sample a handful of rollouts statistically; boundary hash values, overlapping and empty ranges and fall-through between allocations are never enumerated.',
  [core + 'evaluation/evaluation.ts'], [['bucket selection', core + 'evaluation/evaluation.ts bucket']]);
p('E03', 'The first segment yielding a variant wins, with layered metadata',
  'A flag evaluates to the variant of the first segment (in listed order) whose targeting passes and whose bucketed variant key names an existing variant of the flag; later segments never matter once one has produced a variant, and no variant is returned if none does. The returned variant is that variant with metadata merged so that variant metadata overrides segment metadata, which overrides flag metadata, and nothing else changed.',
  ['inputs', 'configurations'], 'every flag configuration and context',
  'Tests use a few server-generated flags; arbitrary segment orders, missing variants and metadata collisions are unbounded.',
  [core + 'evaluation/evaluation.ts'], [['segment loop and metadata merge', core + 'evaluation/evaluation.ts evaluateFlag'], ['segment evaluation', core + 'evaluation/evaluation.ts evaluateSegment']]);
p('E04', 'Targeting conditions are an OR of ANDs over safely selected properties',
  'A list of condition groups passes exactly when some group has every one of its conditions matching (an empty group passes, an empty list does not). A condition reads the property at its selector path and any missing, null or non-object step along the path means "absent" rather than an error.',
  ['inputs', 'configurations'], 'every nesting and length of condition groups, every selector and context shape',
  'Tests only use single-digit hand-picked condition lists and shallow contexts.',
  [core + 'evaluation/evaluation.ts', core + 'evaluation/select.ts'], [['DNF evaluation', core + 'evaluation/evaluation.ts evaluateConditions'], ['path selection', core + 'evaluation/select.ts select']]);
p('E05', 'String, boolean and null matching operators, and their negations',
  '"is" matches a value equal to any filter value (ignoring case when both sides are booleans), "contains" matches when the value contains any filter value ignoring case, and every negative operator on a present value that is not a list is the exact complement of its positive one. An absent value matches "is", "contains" and the ordered and set-membership operators exactly when the filter lists "(none)", matches "is not" and the "does not contain" operators exactly when it does not, and never matches a regular-expression or "set is not" operator. An unknown operator never matches.',
  ['inputs'], 'every property value, operator string and filter list',
  'Complementarity and the null table quantify over all values and filter lists; tests check one or two pairs per operator.',
  [core + 'evaluation/evaluation.ts'], [['operator dispatch', core + 'evaluation/evaluation.ts matchCondition/matchString/matchNull'], ['primitive matchers', core + 'evaluation/evaluation.ts matchesIs/matchesContains/containsNone/containsBooleans/matchesRegex']]);
p('E06', 'Set operators compare lists as sets and require a list value',
  'Against a list value (an array, or a string holding a JSON array), "set is" holds exactly when value and filter contain the same distinct strings, "set contains" exactly when the value list is at least as long as the filter list and every filter value is matched by some value element, "set contains any" exactly when some filter value is, and the negative forms are their complements. A set operator on a present value that is not a list never matches; a non-set operator on a list value matches exactly when it matches some element.',
  ['inputs'], 'every pair of lists, with duplicates, any order and any length',
  'Duplicates, permutations and JSON-encoded lists are combinatorial; the tests hold a few literal lists.',
  [core + 'evaluation/evaluation.ts'], [['set matching', core + 'evaluation/evaluation.ts matchSet/setEquals/matchesSetContainsAll/matchesSetContainsAny/coerceStringArray']]);
p('E07', 'Ordered comparisons are numeric or semantic-version order',
  'For values that parse, less/less-or-equal/greater/greater-or-equal follow numeric order for the numeric operators and semantic-version order (major, minor, patch numerically, then a pre-release below its release and pre-releases by string order) for the version operators, holding when the relation holds against some parseable filter value. Version comparison is a total order: antisymmetric, transitive and consistent with equality.',
  ['inputs'], 'every pair (triple) of versions and numbers',
  'Order laws quantify over pairs and triples of all versions; tests list a couple of dozen pairs.',
  [core + 'evaluation/evaluation.ts', core + 'evaluation/semantic-version.ts'], [['comparators', core + 'evaluation/evaluation.ts matchesComparable/comparator/versionComparator'], ['version order', core + 'evaluation/semantic-version.ts SemanticVersion']]);
p('E08', 'Flags evaluate in order, see earlier results and leave inputs untouched',
  'Evaluating a list of flags yields exactly one entry per flag key that produced a variant (the last one for repeated keys) and nothing else, each flag being evaluated against the context plus the results of the flags before it in the list. Evaluation never modifies the flags or the context it is given.',
  ['inputs', 'configurations'], 'every flag list and context',
  'Dependency chains and repeated keys of every shape; tests use at most a couple of dependent flags.',
  [core + 'evaluation/evaluation.ts'], [['evaluation loop', core + 'evaluation/evaluation.ts evaluate']]);
p('E09', 'Evaluation with traces returns the same variants as plain evaluation',
  'For every context and flag list, evaluation with traces returns exactly the same variants as evaluation without traces, and one trace per flag key. A trace reports a match exactly when the flag produced a variant.',
  ['inputs', 'configurations'], 'every flag list and context',
  'Two independently written evaluation loops have to agree on all inputs; tests compare a few.',
  [core + 'evaluation/evaluation.ts'], [['trace loop', core + 'evaluation/evaluation.ts evaluateFlagWithTrace/evaluateWithTraces']]);
p('E10', 'Dependencies are evaluated before dependents, each flag once, cycles rejected',
  'Ordering a set of flags returns every requested flag and every flag it transitively depends on (that exists) exactly once, each after all its existing dependencies, and nothing else. If and only if the dependency graph reachable from the requested flags has a cycle, ordering fails with an error instead of returning.',
  ['inputs', 'configurations'], 'every dependency graph and every list of requested keys',
  'All finite directed graphs with missing nodes, diamonds and cycles; tests hold a few dozen small literals.',
  [core + 'evaluation/topological-sort.ts'], [['depth-first ordering', core + 'evaluation/topological-sort.ts topologicalSort/parentTraversal']]);

// ---------------------------------------------------------------- browser client
p('B01', 'Variant lookup follows the documented source and fallback order',
  'Looking up a flag with local evaluation uses its evaluated variant, then the inline fallback, then initial variants, then the configured fallback, then the evaluated default variant; otherwise stored variants come first (storage source: stored, inline, initial, configured fallback, stored default; initial-variants source: initial, stored, inline, configured fallback, stored default), with a locally available flag evaluated when none of these yields anything. A default variant never beats a fallback, a non-default one is never replaced by a fallback, and with an empty API key the lookup returns an empty variant without side effects.',
  ['configurations', 'inputs'], 'every combination of source, stored, initial, evaluated, inline and configured values',
  'The product of sources, value presence, default markers and evaluation modes is far larger than the enumerated fallback tests.',
  [br + 'experimentClient.ts'], [['lookup', br + 'experimentClient.ts variantAndSource/localEvaluationVariantAndSource/localStorageVariantAndSource/initialVariantsVariantAndSource']]);
p('B02', 'Listing all variants layers secondary, primary and locally evaluated',
  'Listing all variants returns, per flag key, the locally evaluated variant when the flag is in local evaluation mode and evaluates to one, else the primary source\'s value, else the secondary source\'s value, and contains no other key. Values evaluated for flags not in local mode never appear, and listing changes neither stored nor initial variants.',
  ['configurations', 'inputs'], 'every store content, initial variants and flag set',
  'Per-key precedence over arbitrary key overlaps; tests cover two or three overlaps.',
  [br + 'experimentClient.ts'], [['listing', br + 'experimentClient.ts all/sourceVariants/secondaryVariants']]);
p('B03', 'A fetch replaces exactly the variants it asked for and persists them',
  'After a successful fetch for all flags the stored variants are exactly the fetched ones; after a fetch restricted to given flag keys, fetched keys hold the fetched values, requested keys missing from the response are removed and every other key is unchanged. The persisted copy equals the in-memory variants afterwards, and a storage failure or a failed fetch leaves the in-memory variants intact.',
  ['inputs', 'histories', 'fault_sequences'], 'every previous store content, requested key list, response, and storage or transport fault',
  'Arbitrary overlaps between stored, requested and returned keys, with faults; tests use single-flag mock responses.',
  [br + 'experimentClient.ts', br + 'storage/cache.ts'], [['variant update', br + 'experimentClient.ts storeVariants/fetchInternal/doFetch'], ['cache', br + 'storage/cache.ts LoadStoreCache']]);
p('B04', 'Server flags replace cached flags; initial flags only fill the gaps',
  'After a successful flag refresh the flag set is the server\'s flags plus those initial flags whose key the server did not send, a server (or stored) flag is never overridden by an initial one, and the persisted flags are the server\'s. If the refresh fails the previously held flags stay available.',
  ['inputs', 'histories', 'fault_sequences'], 'every stored flag set, initial flag list, server response and failure',
  'Tests check one initial flag against one server flag.',
  [br + 'experimentClient.ts'], [['refresh', br + 'experimentClient.ts doFlags/mergeInitialFlagsWithStorage']]);
p('B05', 'Persisted variants survive a reload unchanged; bad data never breaks startup',
  'Storing and then loading a cache under the same instance name and deployment reproduces the stored entries, legacy string and object formats load as the equivalent variant, entries that cannot be read are skipped, and unreadable storage content leaves the cache as it was without an error. Caches of different instances, deployments (by key suffix) or kinds never share a storage key.',
  ['inputs', 'histories'], 'every variant, legacy value and storage content, including malformed JSON',
  'Arbitrary storage content is unbounded; tests hold one literal per legacy format.',
  [br + 'storage/cache.ts'], [['load/store', br + 'storage/cache.ts LoadStoreCache/SingleValueStoreCache/transformVariantFromStorage/get*Storage']]);
p('B06', 'Exposure events carry the right variant and are suppressed when they must be',
  'An exposure names the flag key, the variant key (or value when it has no key) only when the variant came from a non-fallback source and is not a default variant, the experiment key and metadata when present; none is sent when the variant disables exposure tracking, or when it is a fallback with no default variant behind it. Automatic exposures are sent by lookups only when configured, explicit ones always.',
  ['configurations', 'inputs'], 'every source, variant shape and configuration',
  'The table over sources, default markers, metadata flags and variant shapes is larger than the tested rows.',
  [br + 'experimentClient.ts', br + 'types/source.ts', br + 'types/exposure.ts'], [['exposure construction', br + 'experimentClient.ts exposureInternal/legacyExposureInternal'], ['fallback classification', br + 'types/source.ts isFallback']]);
p('B07', 'One exposure per flag and variant per user session',
  'A tracked exposure is forwarded exactly when, since the user identity last changed, that flag has not been tracked or was last tracked with a different variant; a change of user id or device id resets this. The legacy analytics wrapper likewise forwards each (flag, variant value) set and each unset once until it changes.',
  ['histories'], 'every interleaving of exposures, flags, variants and identity changes',
  'All histories of exposures and identity switches; tests replay a few fixed ones.',
  [br + 'util/userSessionExposureTracker.ts', br + 'util/sessionAnalyticsProvider.ts'], [['session dedupe', br + 'util/userSessionExposureTracker.ts track'], ['legacy dedupe', br + 'util/sessionAnalyticsProvider.ts']]);
p('B08', 'Integration exposures dedupe per identity and survive reloads in a session',
  'Through the integration, an exposure is sent exactly when the flag was not yet recorded for the current identity in this session or its variant changed (an absent variant counts as one value), web impressions are always sent, and a changed identity starts afresh. Records persist in session storage when it is available and in memory when it is not or is full.',
  ['histories', 'fault_sequences'], 'every sequence of exposures, identity changes, reloads and storage failures',
  'Histories with reloads, null variants and quota errors are unbounded.',
  [br + 'integration/manager.ts'], [['persistent dedupe', br + 'integration/manager.ts SessionDedupeCache'], ['event construction', br + 'integration/manager.ts IntegrationManager.track/getExposureEvent']]);
p('B09', 'Unsent events are kept in order, delivered once, and capped at the newest',
  'Events are offered to the integration in the order they were tracked, an accepted event is never offered again, and a refused (or throwing) one stays at the head of the queue with everything behind it until accepted. What remains unsent is persisted, and when more than the cap remain only the oldest are dropped.',
  ['histories', 'fault_sequences'], 'every sequence of pushes, tracker registrations, acceptances, refusals, exceptions and reloads',
  'Delivery order and no-loss/no-duplication hold over all histories; tests replay a few.',
  [br + 'integration/manager.ts'], [['queue', br + 'integration/manager.ts PersistentTrackingQueue']]);
p('B10', 'Failed fetches retry only when retryable, within bounded backoff',
  'After a failed fetch a background retry starts exactly when retries are enabled and the failure is not a client error (4xx other than 429), a new fetch first cancels pending retries, and at most the configured number of attempts is made, the k-th waiting min(initial * factor^k, maximum) after the previous failure. No attempt is scheduled after cancellation or success.',
  ['fault_sequences', 'histories'], 'every status code, failure pattern and cancellation point',
  'All failure patterns, delays and cancel points; tests use a couple of timers.',
  [br + 'experimentClient.ts', br + 'util/backoff.ts'], [['retry decision', br + 'experimentClient.ts fetchInternal/shouldRetryFetch/startRetries/stopRetries'], ['backoff', br + 'util/backoff.ts Backoff']]);
p('B11', 'User context merges explicit over integration over provider data',
  'The user sent for evaluation takes each field from the explicitly set user if that user defines it, else from the integration, else from the user provider, with user properties merged key-wise in the same precedence and the library identified. The cookie field is never sent to the evaluation server and building the context modifies none of its sources.',
  ['inputs', 'configurations'], 'every combination of users, including missing ones and nested properties',
  'Per-field precedence over arbitrary overlapping objects.',
  [br + 'experimentClient.ts', br + 'util/convert.ts'], [['merge', br + 'experimentClient.ts addContext/cleanUserPropsForFetch/doFetch']]);
p('B12', 'The client keeps its own copy of the user',
  'After a user is set, changing the object that was passed in (or its user properties) does not change the client\'s user, and changing an object or user properties returned by the client does not change it either. Setting a user then reading it back yields equal data, and setting none clears it.',
  ['histories', 'inputs'], 'every sequence of sets, reads and caller-side mutations',
  'Aliasing shows only after particular set/mutate/read histories; tests check one.',
  [br + 'experimentClient.ts'], [['copying', br + 'experimentClient.ts setUser/getUser']]);
p('B13', 'Configuration resolves over defaults with zone URLs and a minimum poll interval',
  'Every defined option overrides its default and a null or undefined one leaves the default; server URLs are the explicit ones, else those of the configured zone (case-insensitively EU), else the default; a configured polling interval below one minute becomes one minute. Debug mode forces the debug log level and otherwise the configured level or errors-only applies.',
  ['configurations'], 'every configuration object',
  'The configuration space is a product over all options and null/undefined/defined.',
  [br + 'experimentClient.ts', br + 'util/index.ts', br + 'logger/ampLogger.ts'], [['resolution', br + 'experimentClient.ts constructor/getLogLevel'], ['null filtering', br + 'util/index.ts filterNullUndefined']]);
p('B14', 'Logs pass exactly when their severity is enabled',
  'A message reaches the configured logger exactly when the configured level is at least as verbose as the message\'s severity, unchanged and through the method of the same severity; a disabled logger emits nothing.',
  ['inputs', 'configurations'], 'every level and message severity',
  'Tests sample levels.',
  [br + 'logger/ampLogger.ts', br + 'types/logger.ts'], [['filter', br + 'logger/ampLogger.ts']]);
p('B15', 'Evaluated variants and users convert without losing or inventing data',
  'Converting an evaluated variant keeps its key, value, payload and metadata when truthy, derives the experiment key from the metadata and invents nothing else; converting a fallback string gives a variant with that key and value. The evaluation context holds the user, the page URL when there is one, and for each group type with a non-empty first name that group\'s name and non-empty properties, while raw group fields are removed from the user.',
  ['inputs'], 'every variant, user and group structure',
  'Structured inputs of arbitrary shape.',
  [br + 'util/convert.ts'], [['conversion', br + 'util/convert.ts']]);
p('B16', 'API requests identify themselves and surface non-success responses as errors',
  'A variants request carries the API key, the encoded user and the tracking, exposure, delivery and flag-key options given, and a flags request the key, library and encoded user given; a response other than 200 becomes an error carrying its status and a 200 yields exactly the parsed body (flags keyed by flag key).',
  ['inputs', 'fault_sequences'], 'every user, option combination, status code and body',
  'Option products and all status codes.',
  [core + 'api/evaluation-api.ts', core + 'api/flag-api.ts'], [['evaluation request', core + 'api/evaluation-api.ts getVariants'], ['flags request', core + 'api/flag-api.ts getFlags']]);

// ---------------------------------------------------------------- connector
p('C01', 'Identity comparison is structural equality on JSON-like values',
  'Two JSON-like values compare equal exactly when they have the same type and, recursively, the same keys and values (arrays element-wise and only with arrays); the comparison is reflexive, symmetric and insensitive to key order.',
  ['inputs'], 'every pair of nested values',
  'Recursive structures of any depth.',
  [co + 'util/equals.ts'], [['deep comparison', co + 'util/equals.ts isEqual']]);
p('C02', 'Events logged before a receiver exists are delivered later, in order, once',
  'Events logged before a receiver is set are delivered to the first receiver in order, each exactly once, up to the first 512; once a receiver is set every event goes to the current receiver immediately. No event is delivered twice or reordered.',
  ['histories'], 'every interleaving of logging and receiver registration',
  'All histories; the tests log a few events.',
  [co + 'eventBridge.ts'], [['queue', co + 'eventBridge.ts EventBridgeImpl']]);
p('C03', 'Identity listeners fire exactly on committed changes, with the new identity',
  'Committing an identity makes it current and notifies every registered listener exactly once with it if it differs from the current identity, and notifies none otherwise; removed listeners are never called. Edits are invisible until committed, apply set, unset and clear-all in order, and leave unrelated fields unchanged.',
  ['histories', 'inputs'], 'every sequence of edits, commits and listener changes',
  'All edit/commit histories, including reusing an editor after a commit.',
  [co + 'identityStore.ts', co + 'util/equals.ts'], [['store', co + 'identityStore.ts IdentityStoreImpl']]);

// ---------------------------------------------------------------- web experimentation tag
p('T01', 'Consent follows its state machine and explicit decisions win',
  'The consent status only ever moves between granted and denied or from pending to either, never back to pending, and every applied move notifies each registered listener exactly once with new and previous status even if another listener throws, while no-op moves notify nobody. Once a status was set explicitly, a configured status never changes it.',
  ['histories'], 'every sequence of explicit and configured statuses and listener registrations',
  'All histories of signals; tests replay fixed sequences.',
  [tag + 'consent/consent-manager.ts'], [['state machine', tag + 'consent/consent-manager.ts ConsentManager'], ['gate predicates', tag + 'consent/consent-gate.ts']]);
p('T02', 'Without consent, gated storage is neither read nor written',
  'While consent is required and not granted, no non-exempt key is read from or written to browser storage: while pending, values set are visible to later reads from memory only and removals act on memory only; once denied, reads find nothing, writes are dropped and removals reach storage. With consent not required or granted, reads, writes and removals go straight to storage, and exempt keys always do.',
  ['histories', 'inputs'], 'every key, value and sequence of operations and consent transitions',
  'All histories of operations interleaved with consent transitions.',
  [tag + 'util/storage.ts', tag + 'util/storage-keys.ts', tag + 'consent/consent-gate.ts'], [['gate', tag + 'util/storage.ts getStorageItem/setStorageItem/removeStorageItem']]);
p('T03', 'A grant writes out exactly what was buffered; a denial discards it',
  'When a pending visitor grants consent, each buffered storage value is written once (the last value set and not removed for its key) merged with the device\'s sticky identity; when the visitor denies, nothing buffered is ever written, even after a later grant.',
  ['histories'], 'every sequence of buffered operations and consent decisions',
  'All histories up to and after the decision.',
  [tag + 'util/storage.ts', tag + 'util/grant-flush-merge.ts'], [['decision listener', tag + 'util/storage.ts armConsentListener']]);
p('T04', 'Cookies obey the same consent gate',
  'Cookie-backed values are neither read from nor written to cookies while consent is required and not granted (removal reaching the cookie only after denial), values set while pending are returned from memory and written once on grant, and are dropped on denial; otherwise operations go to the cookie. Buffered values are snapshots, so later caller changes never reach the cookie.',
  ['histories'], 'every sequence of cookie operations and consent transitions',
  'All histories with asynchronous flush.',
  [tag + 'consent/consent-cookie-storage.ts', tag + 'util/cookie.ts'], [['async cookie gate', tag + 'consent/consent-cookie-storage.ts ConsentAwareCookieStorage'], ['sync cookie gate', tag + 'util/cookie.ts SyncJsonCookie']]);
p('T05', 'Impressions before consent are held, then sent in order or discarded',
  'While consent is pending no impression reaches the integration; on grant the most recent 512 are replayed in order, each until accepted, and later ones pass straight through, while after denial held and new impressions are discarded. A held impression is sent with the time it occurred unless it already had one.',
  ['histories', 'fault_sequences'], 'every sequence of impressions, consent transitions and integration refusals',
  'All histories with refusals; tests use a few events.',
  [tag + 'consent/consent-impression-buffer.ts'], [['buffer', tag + 'consent/consent-impression-buffer.ts ImpressionBuffer']]);
p('T06', 'Merging on grant keeps the device\'s durable identity',
  'When buffered data is merged with what an earlier visit stored, the durable identity fields (identifiers and first-seen time) of the device win for the identity and user-provider records, all other buffered fields are kept, and if there is nothing (or nothing readable) on the device the buffered data is written as is. Other records are never altered by the merge.',
  ['inputs'], 'every key, buffered record and device record, including malformed ones',
  'All record contents; tests use literals.',
  [tag + 'util/grant-flush-merge.ts'], [['merge rules', tag + 'util/grant-flush-merge.ts']]);
p('T07', 'Denial erases everything the product persisted and nothing else',
  'When consent is denied, every storage entry and cookie the product can have written for that deployment and instance is removed from local storage, session storage and every cookie domain level, and no entry belonging to another deployment or product is touched. The erasure is recorded so that sibling subdomains erase their copies before reading them unless a newer identity exists.',
  ['inputs', 'histories'], 'every API key, instance name, hostname and set of persisted entries',
  'Key completeness over all deployments, instances and hosts.',
  [tag + 'consent/clear-data.ts', tag + 'util/cookie.ts'], [['sweep', tag + 'consent/clear-data.ts clearAllPersistedData/getPersistedDataKeys/markIdentityErased/clearIfErasedElsewhere/armDenialCleanup']]);
p('T08', 'Cross-subdomain identity: cookie wins, then local value, then a new one',
  'Each identity field resolves to the non-empty string in the shared cookie if there is one, else to the local fallback, else to a freshly generated value, and the cookie is rewritten (once, with all resolved fields) exactly when some field was not taken from it. Unreadable or unwritable cookies never cause an error.',
  ['inputs', 'fault_sequences'], 'every cookie content, fallback and cookie fault',
  'Arbitrary cookie payloads and faults.',
  [tag + 'util/cookie.ts'], [['resolution', tag + 'util/cookie.ts resolveCrossSubdomainObject']]);
p('T09', 'Cookie domains: registrable domain first, never a public suffix',
  'The candidate cookie domains of a hostname are its dot-suffixes from the shortest that is longer than a known public suffix to the full hostname, lower-cased, each extending the previous by one label; single-label hosts have none and a known two-level public suffix is never a candidate for a host beneath it. Writing a raw cookie reports success exactly when reading it back gives the written value.',
  ['inputs'], 'every hostname and cookie value',
  'All hostnames; tests list a few.',
  [tag + 'util/cookie.ts'], [['levels', tag + 'util/cookie.ts getCookieDomainLevels'], ['raw cookies', tag + 'util/cookie.ts readRawCookie/writeRawCookie']]);
p('T10', 'The behavioral event log keeps the newest 500 events without duplicates',
  'Adding an event appends it once (unless its type is filtered out) with a fresh id, the current session and its time, and only the oldest events beyond 500 are dropped. Merging with the shared store yields one event per event identity (the shared copy winning), ordered by time and capped to the newest 500, and new ids stay larger than all existing ones.',
  ['histories', 'inputs'], 'every sequence of additions and merges and every store content',
  'All histories; tests use tens of events.',
  [tag + 'behavioral-targeting/event-storage.ts'], [['append and cap', tag + 'behavioral-targeting/event-storage.ts addEvent'], ['merge', tag + 'behavioral-targeting/event-storage.ts mergeFromRelay']]);
p('T11', 'Event windows select exactly the matching events',
  'Querying events by type and window returns, in stored order, exactly the events of that type that belong to the current session (session window) or whose time is within the given number of hours or days before now, inclusive (rolling window); counts equal the number of such events.',
  ['inputs', 'histories'], 'every event log, clock value and window',
  'Boundary times and all logs.',
  [tag + 'behavioral-targeting/event-storage.ts'], [['window filter', tag + 'behavioral-targeting/event-storage.ts getEventsInTimeWindow/getEventsByType/getEventCount*']]);
p('T12', 'Behavioral targeting is an OR of ANDs of optionally negated event counts',
  'A behavioral rule holds exactly when some group has all its conditions true, where a condition compares the number of events in its window that satisfy all its property filters with its threshold by its operator (unknown operators being false) and is inverted when negated. An empty rule never holds and an empty group always does.',
  ['inputs', 'configurations'], 'every rule and event log',
  'All nestings and logs.',
  [tag + 'behavioral-targeting/evaluator.ts'], [['evaluator', tag + 'behavioral-targeting/evaluator.ts']]);
p('T13', 'Sessions last while active and rotate after the timeout',
  'Recording activity at a time no more than the session timeout after the last activity keeps the session id and refreshes the last activity; later activity (or none stored, or unreadable data) starts a new session. Reading the current session never extends an active one.',
  ['histories', 'inputs'], 'every sequence of activity times and stored content',
  'All clock histories; boundary equality at the timeout.',
  [tag + 'behavioral-targeting/session-manager.ts'], [['rotation', tag + 'behavioral-targeting/session-manager.ts']]);
p('T14', 'Redirect URLs keep existing query parameters and add missing ones',
  'The redirect URL carries all its own parameters unchanged plus every parameter of the current URL whose name it does not already have; path, host and fragment stay the redirect\'s. Two URLs are the same page only up to the parts that the comparison is documented to ignore (query, or query and anchor).',
  ['inputs'], 'every pair of URLs',
  'All URL pairs with repeated and overlapping parameters.',
  [tag + 'util/url.ts'], [['concatenation', tag + 'util/url.ts concatenateQueryParamsOf'], ['normalisation', tag + 'util/url.ts urlWithoutQuery/urlWithoutHash/urlWithoutParamsAndAnchor/removeQueryParams']]);
p('T15', 'Campaign parameters prefer the URL, then the tag\'s, then analytics\' stored ones',
  'Each UTM parameter of the enriched user is taken from the current URL if defined there, else from the tag\'s stored value, else from the analytics cookie, no non-UTM field is ever included, and the resolved set is persisted and attached only when non-empty; otherwise the user is returned unchanged.',
  ['inputs'], 'every combination of campaigns',
  'Per-key precedence over all campaign contents.',
  [tag + 'util/campaign.ts'], [['priority merge', tag + 'util/campaign.ts enrichUserWithCampaignData']]);
p('T16', 'Page configuration overrides code configuration; consent merges field by field',
  'Each option of the effective tag configuration comes from the page-level object if present there, else from the initialization argument, else from the defaults, except that consent options merge field by field with the page-level ones winning, so that setting one consent field on the page never drops another.',
  ['configurations'], 'every pair of configurations',
  'Configuration product.',
  [tag + 'util/config.ts'], [['merge', tag + 'util/config.ts mergeWithWindowConfig']]);
p('T17', 'Trigger keys are collision-free and decodable',
  'Different (selector, threshold) or (selector, interaction, threshold) triggers never share a state key, for selectors without NUL characters, and decoding a visibility or scroll key gives back the selector and number it was built from.',
  ['inputs'], 'every selector, interaction type and number',
  'All selectors and numbers.',
  [tag + 'util/triggers/trigger-state-keys.ts'], [['keys', tag + 'util/triggers/trigger-state-keys.ts TriggerStateKeys']]);
p('T18', 'Messages reach every subscriber once, in order, then the group callback',
  'Publishing a message calls every subscriber of that type exactly once in subscription order with the payload (an empty object when none is given) and then the latest group callback of that type once, and calls nobody subscribed to other types or removed.',
  ['histories'], 'every sequence of subscriptions, publications and resets',
  'All histories.',
  [tag + 'subscriptions/message-bus.ts'], [['bus', tag + 'subscriptions/message-bus.ts MessageBus']]);
p('T19', 'Active pages compare by structure and identity and copy without sharing',
  'Two active-page maps are equal exactly when they have the same experiments, the same page names in each and the same page ids; a copied map equals the original and changing the copy\'s structure or page fields never changes the original. Pages and element selectors collected by trigger are exactly those whose trigger type asks for it.',
  ['inputs'], 'every page-object map',
  'All map shapes.',
  [tag + 'util/page-object.ts'], [['page maps', tag + 'util/page-object.ts']]);
p('T20', 'A redirect is not repeated once its destination bounced the visitor back',
  'A visitor who has been redirected and lands back on the source page is not redirected again by the same flag in that session, a page already at its destination never redirects, and a redirect decision compares URLs ignoring only what its configuration says to ignore. No sequence of page loads alternates between two pages indefinitely because of one flag.',
  ['histories', 'inputs'], 'every sequence of page loads and destinations',
  'All navigation histories, including server-side bounces.',
  [tag + 'experiment.ts'], [['redirect markers', tag + 'experiment.ts handleRedirect/isAtDestination/markerMatchesTarget/reconcileRedirectMarkersOnLoad']]);
p('T21', 'Overlapping fetches never let an older response win',
  'When several fetches or retries overlap, the variants finally held are those of the most recently started successful one.',
  ['schedules'], 'every interleaving of overlapping fetches and retries',
  'Depends on response timing.',
  [br + 'experimentClient.ts'], [['fetch and retry', br + 'experimentClient.ts fetch/fetchInternal/startRetries']]);
p('T22', 'Variant page changes are applied while and only while their page is active',
  'On every navigation and trigger, the changes of a visitor\'s variants are present in the document exactly for the pages currently active, and are fully reverted otherwise.',
  ['histories', 'schedules'], 'every navigation, trigger and mutation history',
  'Depends on the live document and observer schedule.',
  [tag + 'experiment.ts', tag + 'subscriptions/subscriptions.ts'], [['apply/revert', tag + 'experiment.ts applyVariants/revertVariants']]);
writeFileSync(new URL('../properties.jsonl', import.meta.url), P.map((x) => JSON.stringify(x)).join('\n') + '\n');
for (const x of P) if (x.title.length > 80) console.log('TITLE TOO LONG', x.id, x.title.length);
console.log(P.length, 'properties');
