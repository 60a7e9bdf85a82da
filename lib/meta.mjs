// Per property: level, what the level rests on, bounded parts, assumptions that no contract discharges.
const CORE = 'Inputs follow their declared TypeScript types; numbers are finite mathematical reals (no floating-point rounding); property names of Object.prototype are not used as keys.';
const PAGE = 'Storage, timers and the network are what their types say: storage is a dictionary (reads never fail), a request settles with any result or error, and no other code runs while a function waits.';
const core = (note, more = {}) => ({ level: 'proof', note, assumptions: [CORE], ...more });
const browser = (note, more = {}) => ({ level: 'proof', note, assumptions: [CORE, PAGE], ...more });
const tag = (note, more = {}) => ({ level: 'proof', note, assumptions: [CORE, PAGE, 'The consent gate is module state and any state of it is considered; what runs between two operations of one object is another of its operations.'], ...more });
export const META = {
  E01: core('Unbounded proof: the UTF-8 encoder by a loop invariant over the text, and the hash of any byte sequence as body over the 4-byte blocks, tail over the rest, and finalizer, each with 32-bit bitvector arithmetic. Lengths are below 2^29.'),
  E02: core('Unbounded proof of `bucket` and of `evaluate` with one segment for every hash in [0, 2^32), every allocation and distribution list; the hash is an uninterpreted function of the salted key. Number-to-text conversion is uninterpreted.'),
  E03: core('Unbounded proof that `evaluateFlag` returns the variant of the first segment that passes and whose key names one, with the merged metadata, for any number of segments; built on the contracts of E02 and E04.'),
  E04: core('Unbounded proof of `evaluateConditions` (any number of groups and conditions) and of `select` (any path and value).'),
  E05: core('One contract per operator (absent value: 20, present value: 14) and one for unknown operators, for every selector, target and list of filter values. Regular expressions and case mapping are uninterpreted functions.'),
  E06: core('One contract per operator and kind of value (array, text, other); list elements of any number. The order operators are composed through the contract of matchString.'),
  E07: core('Unbounded proof for numbers and versions; SemanticVersion.compareTo is proved total and lexicographic; SemanticVersion.parse is uninterpreted in the proofs (its regular expression is executed by the replay only).'),
  E08: core('Unbounded proof that `evaluate` is the left fold of `evaluateFlag` over the list, each against the context and the results before it, and that it modifies neither context nor flags.'),
  E09: core('Unbounded proof: loop invariant over the segments for the traced flag, equality with the untraced one, and both evaluations as the same fold. That two folds with pointwise equal steps agree is the induction principle, not a solver fact.'),
  C01: { ...core('Unbounded proof by contract induction on nesting depth: the comparison is structural sameness of JSON-like values; reflexivity, symmetry and order-insensitivity are facts about sameness. That the recursion ends is not proved (JSON values are finite).'), assumptions: [CORE, 'Values are JSON-like (undefined, null, booleans, numbers, text, arrays and records of those).'] },
  C02: core('Unbounded proof of each method for any queue length; histories follow by composing the method contracts (each relates the state before to the state after). Receivers that call back into the bridge are not considered.'),
  C03: core('Unbounded proof that a commit stores the identity and calls every registered listener once exactly when it differs; the setters and the property updates are proved for every identity and every record of properties, one contract per order of the known actions plus an unknown one.'),
  B01: browser('Unbounded proof of the three lookup orders (local evaluation, stored variants, initial variants), their selection, and `variant` for every state of the client, key and fallback; local evaluation of a flag is an uninterpreted function of the user and the flags here (E01-E09 decide it).'),
  B02: browser('Unbounded proof of `all` for any number of variants and flags; local evaluation is an uninterpreted function of the flags here.'),
  B03: browser('Unbounded proof of `storeVariants` (loop invariants over the fetched variants and the requested keys), of `doFetch` and of `fetchInternal` as their composition; a failing request or a full storage is a possible outcome at every call.'),
  B04: browser('Unbounded proof of `doFlags` for every outcome of the request, and of the merge of initial flags by a loop invariant.'),
  B05: browser('Unbounded proof of store, load and the conversion of stored variants, for any number of entries, and of the storage keys. The JSON round trip of JSON-like values is an axiom.'),
  B06: browser('Unbounded proof of the exposure sent for every variant source and metadata, and of the lookups that send it.'),
  B07: browser('Unbounded proof of one step of the exposure tracker and of the analytics wrapper for every state; histories follow by composing steps.'),
  B08: browser('Unbounded proof of one step of the deduplication for every stored state and identity, with session storage present, absent or full, and of what is queued. Histories within one page follow by composing steps; see known-findings.json for reloads.'),
  B09: browser('Unbounded proof of each queue operation for any queue length (loop invariant over the events offered); a tracker may refuse or throw at any call and storage may be full. Histories follow by composing steps.'),
  B10: browser('Unbounded proof of the backoff step (attempt counter, delay recurrence), of cancellation, and of when a failed fetch starts retries. Time is represented by the delays passed to the timer.'),
  B11: browser('Unbounded proof of the merged user for every set of sources. `Defines` means: has the property.'),
  B12: browser('Unbounded proof that the stored and the returned user are copies with copied user properties.'),
  B13: browser('Unbounded proof of the constructor configuration for every combination of options, and of the log level.'),
  B14: browser('Complete proof over levels and severities with arbitrary arguments.'),
  B15: browser('Unbounded proof of the conversions for any variant, user and number of groups.'),
  B16: browser('Unbounded proof of both requests for every option and every response; base64url and URL parsing/printing are uninterpreted functions with the laws stated in the assumptions.'),
  T01: tag("Unbounded proof of each operation of the consent manager for any number of listeners (loop invariant over those told; a listener may throw at any call) and for the configured status after an explicit one. Histories follow by composing operations. Unsubscribing is executed by the replay."),
  T02: tag("Unbounded proof of the gated read, write and removal of both storages for every key, value and consent state, and that a full storage changes nothing; histories follow by composing operations."),
  T03: tag("Unbounded proof of what a decision does with any number of buffered values (loop invariant over those written) and that a handler is told once; the merge with the device is T06."),
  T04: tag("Unbounded proof of read, write and removal of both cookie stores for every consent state, and of what a decision writes for any number of buffered values (loop invariant). Awaiting an unfinished flush is not modelled (no other code runs at an await); the replay runs it."),
  T05: tag("Unbounded proof of one impression, of the flush for any number of held impressions (loop invariant; the tracker may refuse or throw at any call), of the decision and of the discard. Histories follow by composing steps; the timer is represented by starting and stopping it."),
  T06: tag("Unbounded proof of both merges for every key, buffered text and device text; JSON round trips of JSON-like values are axioms."),
  T07: tag("Proof of the list of keys for every api key and instance name, of the removal of exactly these entries from both storages and of the expiry of one cookie at one domain. That every cookie is expired at every domain level and the erasure markers are executed by the replay only. See known-findings.json."),
  T08: tag("Proof for two identity fields (the number the product uses), every cookie text, fallback and generated value. Cookies that hold a JSON array are excluded."),
  T09: tag("Unbounded proof of the domain levels (loop invariant) for every hostname, and of the raw cookie write, read (one direction) and removal against an arbitrary document; that a written cookie reads back is decided by the document and is executed by the replay on a cookie jar."),
  T10: tag("Unbounded proof of adding an event to any log and of storing it. The merge with the shared store uses a sort with a comparator and is executed by the replay only."),
  T11: tag("Unbounded proof of the queries for any log, type, window and session."),
  T12: tag("Unbounded proof for any number of groups, conditions, events and filters; the engine that evaluates property filters is the subject of E04 and uninterpreted here."),
  T13: tag("Unbounded proof of one activity and of each read for every stored state; histories follow by composing steps."),
  T14: tag("Unbounded proof for any number of parameters, on the platform model of URL and URLSearchParams (tsv/platform/url.ts). removeQueryParams is executed by the replay only."),
  T16: tag("Unbounded proof for every option of both objects."),
  T17: tag("Unbounded proof: the first NUL of a key ends its selector, the parts can be read off, and decoding inverts encoding. Number-to-text conversion is an injective uninterpreted function that never contains NUL and is inverted by parseFloat."),
  T18: tag("Unbounded proof of publish for any number of subscribers (loop invariant), of the group callback and of unsubscribing. That subscribe appends one subscriber is executed by the replay only."),
  T19: tag("Unbounded proof of the comparison and of the pages by trigger for any number of experiments and pages. Copying and the element selectors are executed by the replay only."),
  T20: tag("Unbounded proof of when a page is left, of what is recorded before that, of what suppresses a flag and that it stays suppressed, for every address, marker and flag, impressions not encoded into the address. No endless alternation follows by composing: coming back to the source of an unfinished redirect suppresses the flag for the session."),
};
export const NA = {};
