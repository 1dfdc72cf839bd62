"""Single source for properties.jsonl and MANIFEST.json (run: python3 tools/props.py)."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
def prop(id, title, statement, over, text, why, files, mechanism, tech=None, level="exploration", note=""):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why,
                  files=files, mechanism=mechanism, tech=tech, level=level, note=note))

OPS = ("runtime monitoring: generated operation histories run on the real library (ASan+UBSan+LSan build), "
       "every result checked online by an independent reference model")
TSAN = "ThreadSanitizer stress with injected delays, plus an offline checker over the recorded per-thread logs"

prop("C01", "Event ids are the SHA-256 of the canonical NIP-01 serialization",
 "For every event the library can hold (any kind 0..65535, any created_at a JSON integer can carry, any tag list, any content including quotes, control characters and multi-byte UTF-8), the computed id equals the SHA-256 of the exact NIP-01 array serialization of that event (control characters without a short escape appear as \\u00xx in lowercase). Two events that differ in any of pubkey, created_at, kind, tags or content never share a computed id, and computing the id neither depends on nor alters any other field. This holds with and without cJSON.",
 ["inputs"], "all events: pubkey x created_at x kind x tag lists x UTF-8 strings", 
 "Tests hash a few ASCII events; escaping, number formatting and tag framing bugs only show on particular characters, magnitudes or shapes.",
 ["src/event.c"], "serialization for id and SHA-256 in compute_id", OPS)
prop("C02", "Verification accepts exactly the authentic events",
 "An event signed by the library with a valid private key verifies, and its signature is a BIP-340 signature of the event id under the event's public key that any independent verifier accepts. Any event whose id is not the hash of its fields, or whose signature is not valid for that id and key, is rejected by every verification entry point; signing with an invalid key fails and leaves no event that verifies.",
 ["inputs", "histories"], "all keys, events, and all single or combined mutations of id, pubkey, sig, created_at, kind, tags, content",
 "Tests flip one or two bytes of one event; the guarantee is over every field, bit position and mutation combination, including encodings such as high-s, zero or out-of-range values.",
 ["src/event.c", "src/key.c", "src/relay_protocol.c"], "nostr_event_sign / nostr_event_verify and the relay-side id and signature checks", OPS)
prop("C03", "Event JSON is faithful in both directions",
 "Serializing any event gives well-formed JSON carrying exactly the NIP-01 fields with exactly the event's values, and parsing that JSON back (in any member order, whitespace or string escaping that JSON allows) gives an event equal in every field. Parsing either yields an event whose fields are exactly those in the text, or reports an error and yields no event; text that is not a JSON object of the NIP-01 shape, hex fields of wrong length or alphabet, and numbers outside the field's range are errors (id and sig may be absent, for unsigned events; integers are judged up to 2^53-1 in magnitude; which duplicate member wins is not judged).",
 ["inputs"], "all events and all JSON texts",
 "Tests parse a handful of hand-written events; truncation, sign and range errors, escapes and partial field acceptance need unusual values.",
 ["src/event.c", "src/relay_protocol.c"], "nostr_event_to_json, nostr_event_from_json, relay-side parse", OPS)
prop("C04", "Event objects hold exactly what their edit history wrote",
 "After any sequence of creating, adding tags, replacing content, and destroying events, each event holds exactly the tags (in order, byte for byte) and content given by its successful operations, and a failed operation leaves the event as it was. Pointers handed out earlier never make later edits corrupt memory, configured limits on tags, values and content are enforced exactly, and destroying the event releases everything.",
 ["histories", "configurations"], "all edit histories across growth boundaries of the tag storage, and all configured limits",
 "Tests add a few small tags; relocation of the tag arena happens only at size thresholds that depend on the whole history.",
 ["src/event.c", "src/nip13.c", "src/config.c"], "tag arena growth and pointer relocation, content replacement", OPS)
prop("C05", "Hex encodings of keys and data are exact and strict",
 "Encoding bytes to hex and decoding back is the identity, always in lowercase on output. Decoding accepts exactly the strings of the required length over 0-9a-fA-F and rejects every other string with an error, for public keys, private keys, event ids, signatures and raw buffers, and no output buffer is written when the caller's size is too small.",
 ["inputs"], "all strings near the required lengths and all byte strings",
 "Tests try one valid key and one short string; acceptance of malformed characters depends on which character sits at which position.",
 ["src/utils.c", "src/key.c", "src/event.c", "src/relay_protocol.c"], "hex encode/decode and key_from_hex / privkey_from_hex", OPS)
prop("C06", "Bech32 key and id encodings round-trip and reject everything else",
 "For every 32-byte value, the npub, nsec and note encodings are the BIP-173 encodings of that value, and decoding returns the same value. A string decodes only if it is a valid BIP-173 string (checksum, charset, single case, separator, zero padding) with the expected prefix and exactly 32 payload bytes; every other string, in particular any within a few substitutions, insertions or deletions of a valid one, is rejected without touching memory outside the buffers. (The generic key codec takes any valid prefix; strings in upper case may be refused.)",
 ["inputs"], "all 32-byte values, all prefixes, all strings up to and beyond the maximum length",
 "Tests decode one vector per type; checksum, padding and length handling must hold for every string, including ones with a valid checksum but wrong length or prefix.",
 ["src/bech32.c"], "bech32 polymod, bit conversion, per-type decode", OPS)
prop("C07", "NIP-19 pointers and nostr: URIs round-trip and reject everything else",
 "Encoding any profile, event, address or relay pointer that fits the format limits and parsing the resulting URI gives back exactly the same type, key, id, kind, identifier, author and relay list. Parsing any text either yields exactly what an independent NIP-19 TLV decoder reads from it or an error, and never a partially filled result; an input too large for the format is an error rather than a silently shortened identifier. (When parsing, relay hints that are not ws/wss URLs of at most 255 printable characters, or beyond the structure's capacity, are ignored.)",
 ["inputs"], "all pointer values (0..limit relays, identifiers of 0..255 bytes) and all TLV payloads including unknown, repeated, truncated and oversize records",
 "Tests encode small pointers; TLV length, repetition and capacity limits interact and only particular combinations misbehave.",
 ["src/nip21.c", "src/bech32.c"], "TLV encode/decode, nostr: URI dispatch", OPS)
prop("C08", "Key pairs are consistent and key operations agree with secp256k1",
 "Every private key in 1..n-1 yields the public key that is the x coordinate of that multiple of the generator, and every private key outside that range is rejected by key-pair construction and validation, signing, ECDH and delegation, and every public key that is not an x coordinate on the curve is rejected wherever it is used. Shared secrets computed from either side are equal and match the documented x-coordinate definition, and a key pair validates exactly when its public half belongs to its private half. A key pair whose construction or generation fails is left either as it was or no longer claiming to be initialized, never as two halves that do not belong together.",
 ["inputs"], "all private keys including 0, n-1, n, n+1, 2^256-1 and all candidate public keys",
 "Tests use a few generated keys; range edges, non-residue x coordinates and odd-y points are rare or impossible to hit by generation.",
 ["src/key.c"], "keypair import, validation and ECDH", OPS)
prop("C09", "Randomness is complete, fresh and fails closed",
 "Every request for random bytes, of any length, either fills the whole buffer with fresh output of the system generator or reports failure; keys, mnemonics, salts, encryption nonces and the throw-away keys of gift wraps are each produced from draws of their own, never from a failed or partial draw. No two requests, in one thread or many, receive the same output, and an operation that reports success after a generator failure does not exist.",
 ["inputs", "fault_sequences", "schedules"], "all lengths, all positions of generator failure, both crypto backends, concurrent callers",
 "Tests call the generator on a healthy system with small sizes; failure paths and chunk boundaries are never executed.",
 ["src/key.c", "src/hd_key.c", "src/nip49.c", "src/nip44.c", "src/nip59.c", "src/nip17.c"], "nostr_random_bytes and every consumer of it", 
 "fault injection at the RNG boundary (every k-th draw fails) with an output-provenance monitor, ASan+UBSan build, both backends", "fault_enumeration")
prop("C10", "HD derivation matches BIP-32, BIP-39 and NIP-06",
 "For every seed, path, mnemonic and passphrase, master keys, hardened and normal child keys, generated and validated mnemonics, mnemonic-to-seed conversion and the NIP-06 account key equal those defined by BIP-32, BIP-39 and NIP-06. Malformed paths (bad characters, empty components, indices of 2^31 or more), seeds of disallowed length, mnemonics with wrong word count, unknown words or wrong checksum, and too-small output buffers are rejected.",
 ["inputs"], "all seeds, paths and mnemonics",
 "Tests check published vectors; carry propagation, leading zeros, index overflow and checksum rejection need other inputs.",
 ["src/hd_key.c"], "BIP-32 CKDpriv, path parser, BIP-39 word list and checksum, NIP-06 path", OPS)
prop("C11", "Encrypted private keys (NIP-49) open only with the right password",
 "For every private key, password, cost and security byte, encrypting then decrypting with the same password bytes (the caller normalizes) returns the same key and security byte, and an independent NIP-49 implementation decrypts the string too. A wrong password, any altered character, an unsupported version or a cost outside 16..22, or a malformed string gives an error and no key material.",
 ["inputs"], "all keys, Unicode passwords, costs and all corruptions of the encoded string",
 "Tests cover one official vector and a few tampered strings; authenticity must hold for every byte of the payload.",
 ["src/nip49.c"], "scrypt, XChaCha20-Poly1305 and ncryptsec codec", OPS)
prop("C12", "Delegations authorize exactly what their signed conditions allow",
 "A delegation token created by the library verifies for its delegatee and conditions and for no other delegatee, conditions or delegator. An event passes the delegation check exactly when its token is a valid signature by the delegator over its own pubkey and conditions string and the event satisfies the conditions in that string (one of the kind= alternatives, if any, and every created_at bound); condition strings outside the NIP-26 grammar are rejected.",
 ["inputs"], "all condition strings, keys, tokens and events around each bound",
 "Tests use one or two conditions; repeated conditions, boundary timestamps and malformed separators decide authorization.",
 ["src/nip26.c"], "conditions parser, delegation string hash, condition check", OPS)
prop("C13", "Proof of work is counted, committed and mined correctly",
 "The reported difficulty of an id equals its number of leading zero bits; a work check passes exactly when the event carries a nonce tag with a nonce, its id meets the requested minimum, and it also meets the target the tag commits to, if any. Mining an event that has at most one nonce tag, single- or multi-threaded, on success leaves the event's author, kind, content and other tags unchanged (created_at may become the current time), exactly one nonce tag committing to the requested target, an id that is its true hash and meets the target; on failure or timeout it reports an error.",
 ["inputs", "schedules", "histories"], "all ids, targets, nonce tags, thread counts and interleavings of miners",
 "Tests mine one event at a low target; which thread wins, whether the loser overwrites it, and existing nonce tags of odd shapes vary per run.",
 ["src/nip13.c"], "leading-zero count, nonce tag update, mining worker coordination", 
 OPS + "; multi-threaded mining additionally under ThreadSanitizer")
prop("C14", "Thread structure (NIP-10) is written and read consistently",
 "For any event's tags, the reported root and reply references (id and relay hint of up to 255 bytes) are those NIP-10 defines: the first root-marked and first reply-marked e tag, the root when only a root marker is present, and without root or reply markers the first and last e tag, never one marked as a mention. Tags the library adds for a reply, root or mention are exactly those asked for and read back as that. Malformed or short tags (ids that are not 64 hex digits) never produce a reference or an out-of-bounds access. (The root when only a reply marker is present is not judged.)",
 ["inputs", "histories"], "all lists of e, q and p tags with any markers, lengths and order",
 "Tests use two or three well-formed tags; precedence rules depend on combinations and order.",
 ["src/nip10.c"], "marker parsing, positional fallback, tag construction", OPS)
prop("C15", "Reposts, quotes and reactions refer to exactly the event they name",
 "A repost, generic repost, quote or reaction built for any event or reference has the kind, tags and content its NIP prescribes, and parsing it returns the same event id, author, kind, relay and content. Parsing an event of another kind or without a usable reference (an e tag with 64 hex digits) is an error, the last usable e and p tag decide, with the relay hint of that same e tag, and malformed ids, keys or kinds are never reported. Scanning content for quotes adds exactly one q tag, as documented, for each valid note, nevent or naddr URI in it, in order.",
 ["inputs"], "all target events, relay hints, reaction contents and tag lists",
 "Tests build one of each; missing, repeated, malformed or reordered tags decide what a client displays as the target.",
 ["src/nip18.c", "src/nip25.c"], "repost/quote/reaction builders and parsers", OPS)
prop("C16", "Relay lists (NIP-65) behave as an ordered map of relays to permissions",
 "After any sequence of additions, the list equals an ordered model with one entry per relay URL (ws/wss with a host, at most 2048 bytes, at most 256 entries) and its read/write permissions; refused additions change nothing, and converting to an event and back preserves every entry and permission. Readable and writable views contain exactly the relays with that permission in order; events of another kind are refused, and an event yields exactly the valid, distinct relays of its r tags with the permission their marker gives (unknown markers and unusual URL characters are not judged).",
 ["histories", "inputs"], "all add/convert/view sequences and all kind-10002 tag lists",
 "Tests add two or three relays; growth, duplicates, the entry limit and marker handling need longer histories.",
 ["src/nip65.c"], "relay list container and tag conversion", OPS)
prop("C17", "Lists and sets (NIP-51) behave as ordered item collections",
 "After any sequence of adding, removing and metadata edits, a list of any kind holds exactly the items (type, value, hint, name, privacy) and metadata given by those operations in order, and refused operations change nothing. Converting to an event writes exactly the public items as tags, and for sets (kinds 30000..39999) the d tag and given title, description and image; converting back restores them, and an event yields exactly the items present in its tags. Private items are never written into public tags; where NIP-44 is built in they come back from the encrypted content.",
 ["histories", "inputs"], "all operation sequences, list kinds and tag lists",
 "Tests add a few items; growth boundaries, removal order and mixtures of public and private items come from longer histories.",
 ["src/nip51.c"], "list container, kind table, event conversion", OPS)
prop("C18", "NIP-05 answers only what the response document says",
 "An identifier is split, its URL built and its syntax accepted exactly as NIP-05 defines, and a response document yields a public key for a name exactly when its top-level names object maps that name to a 64-digit hex key, together with exactly the relay URLs the relays object lists for that key. Verification succeeds only for the key the document assigns to the name; names, keys or relays appearing anywhere else in the document are never used.",
 ["inputs"], "all identifiers and all JSON documents, including nested, reordered, escaped and duplicate members",
 "Tests use compact well-formed responses; a text scanner is fooled only by documents with the same tokens in other places.",
 ["src/nip05.c"], "identifier parsing, URL construction, response scanning", OPS)
prop("C19", "Zap requests and receipts bind amount, payer, recipient and invoice",
 "A zap request carries exactly the amount, recipient, event, relays, lnurl and comment given, and a receipt parses to exactly the invoice, description and preimage in its tags, with an amount equal to what the invoice's human-readable part encodes under BOLT-11. Receipt verification succeeds only if it is signed by the wallet key, embeds the given signed request, and amounts and invoice agree; malformed invoices, lnurls or descriptions are errors.",
 ["inputs"], "all amounts, relays, invoices with every multiplier, lnurl strings and receipt tag lists",
 "Tests use one invoice per multiplier; overflow, missing amounts, oversize prefixes and duplicate tags need hostile values.",
 ["src/zap.c"], "request builder, receipt parser and verifier, lnurl validation", OPS)
prop("C20", "Filter matching equals the NIP-01 definition",
 "An event matches a filter exactly when it satisfies every condition the filter sets (ids, authors, kinds, since, until and every tag condition, each by membership), and matches a list of filters exactly when it matches one of them. The answer does not depend on the order of values, tags or filters, on how many tags the event has, or on conditions the filter does not set; a search condition is decided only by the supplied callback. (ids and authors match as hex prefixes, as documented; since and until of 0 are no bound; tag conditions look at each tag's first value; tag conditions without values are not judged.)",
 ["inputs"], "all filters x events, including many tags, repeated tags, empty lists and boundary timestamps",
 "Tests check one condition at a time; conjunctions, boundaries and large tag lists form a space no example list covers.",
 ["src/relay_filter.c"], "nostr_filter_matches and filter lists", OPS)
prop("C21", "Filter objects are parsed, validated, built, cloned and read back exactly",
 "Parsing filter JSON gives a filter whose conditions are exactly those in the text, with tag names distinguished by case, or an error for text that is not a filter object; validation accepts exactly filters within the documented limits. The accessors read back exactly what a filter holds, and a clone is equal to and independent of its source: freeing or changing either never affects the other. (A member of the wrong type, more than 256 values, a search over 65536 bytes or an integer the field cannot hold is an error; out-of-protocol integers may be refused or kept; unknown members are ignored; repeated members and empty lists are not judged.)",
 ["inputs", "histories"], "all filter JSON texts and all build/clone/free histories",
 "Tests parse a few filters; case-folded keys, wrong-typed members, limits and deep-copy aliasing show only on specific shapes.",
 ["src/relay_filter.c"], "nostr_filter_parse, validate, builder, clone, accessors", OPS)
prop("C22", "Client messages are parsed to exactly what was sent",
 "Any EVENT, REQ, CLOSE, COUNT or AUTH message within the protocol's limits parses to the same command, subscription id, filters and event it contains, whatever its whitespace or escaping. Every other text gives an error and no message content, nothing beyond the stated input length is read, and freeing the result releases everything exactly once. (Limits: ids of 1 to 64 printable ASCII characters, at most 10 filters that validation accepts; messages with surplus or no optional elements may be accepted or refused.)",
 ["inputs"], "all client message texts and all truncations and mutations of valid ones",
 "Tests parse one message per type; limits on ids and filters, non-terminated input and error paths with partial results need generated texts.",
 ["src/relay_message.c", "src/relay_filter.c"], "nostr_client_msg_parse and nostr_client_msg_free", OPS)
prop("C23", "Relay messages serialize to well-formed JSON carrying exactly their arguments",
 "For every relay message and every argument string, the output is one well-formed JSON array that an independent parser reads back as exactly the given type, ids, flags, counts, events and text. When the buffer is too small the call fails without writing past it; the reported length is the length written. (Text beyond the message structure's fields - 64 bytes for ids, 255 for text, 127 for challenges - is cut between characters; negative counts and text that is not UTF-8 are not judged.)",
 ["inputs"], "all message types, strings with any characters, all buffer sizes from 0 up to past the needed size",
 "Tests use friendly strings and big buffers; injection through quotes and off-by-one buffer limits occur only at particular strings and sizes.",
 ["src/relay_message.c", "src/relay_protocol.c"], "nostr_relay_msg_serialize and message constructors", OPS)
prop("C24", "Relay-side admission accepts exactly well-formed, authentic, timely events",
 "Full event validation succeeds exactly when the id is the hash of the event's fields, the signature is valid for it, the timestamp is not further in the future than the allowed window, and the event is not expired; otherwise it reports the kind of a failure that is present. Each individual check (id, signature, timestamp, hex fields and prefixes, subscription ids, addresses) agrees with its definition for every event, time and window, including the extremes of the integer ranges.",
 ["inputs"], "all events, all clock values and windows",
 "Tests validate one good and a few bad events; window arithmetic at extremes and combinations of defects are not sampled.",
 ["src/relay_protocol.c"], "nostr_event_validate_* family", OPS)
prop("C25", "Kind classes, replacement order, addresses and expiry follow NIP-01 and NIP-40",
 "Every kind from 0 to 65535 is in exactly the NIP-01 class for it, and d-tag and expiration values are those in the event's tags (first tag of the name that has a value). Replacement comparison is a strict total order by created_at then lowest id, antisymmetric and transitive, so that any arrival order of versions converges to the same survivor; an event is expired exactly when it has a valid expiration (a positive decimal number) not after the given time.",
 ["inputs", "histories"], "all kinds, all pairs and triples of versions in every arrival order, all expiration tag values",
 "Tests compare one pair; convergence over permutations and the ties and class edges are not sampled.",
 ["src/relay_protocol.c"], "kind classification, replaceable compare, expiration, address helpers", OPS)
prop("C26", "Deletion requests only authorize deletion of the author's own events",
 "A deletion request yields exactly the well-formed event ids and addresses in its tags, and authorizes deleting a target exactly when the request is by the target's author and names its id, or (addressable kinds, address check) names its address kind:pubkey:d. (The parsed request carries no time, so comparing created_at is the caller's task.) Nobody else's event, and no event not named, is ever authorized, whatever the length or content of identifiers.",
 ["inputs"], "all deletion events, targets, authors, timestamps and identifiers of any length",
 "Tests delete one event; identifier truncation, mixed tags and timestamp ties need generated cases.",
 ["src/relay_protocol.c"], "deletion parse and authorization checks", OPS)
prop("C27", "Relay information documents carry exactly the configured information",
 "For every combination of set and unset fields, the NIP-11 document (and its limitation object) is well-formed JSON that an independent parser reads back as exactly the set fields with their values, and building a document by successive setters keeps the last value of each. A too-small buffer gives an error without overrun, and freeing releases everything.",
 ["inputs", "histories"], "all field combinations, string contents, numeric values and buffer sizes",
 "Tests serialize one typical document; optional-field combinations and buffer edges are exponential.",
 ["src/relay_nip11.c"], "relay info setters and serialization", OPS)
prop("C28", "Configuration is always valid, applied whole, and survives callbacks",
 "Whatever sequence of defaults, environment loading, initialization, updates, callbacks and cleanup is performed, the active configuration is always one that validation accepts and is exactly the last one successfully applied; a rejected configuration changes nothing and notifies nobody, and an accepted update notifies the registered callback exactly once with the old and new values. Validation accepts exactly the documented ranges, environment variables change only the named setting and only when well-formed, and callbacks may use the configuration functions without hanging.",
 ["histories", "configurations", "inputs"], "all sequences of configuration calls, all field values around their limits, all environment values",
 "Tests set a few valid values; atomicity of rejected updates, re-entrant callbacks and odd environment strings are not exercised.",
 ["src/config.c", "src/key.c"], "config validate/update/env/callback", OPS)
prop("C29", "No input can corrupt memory, leak, hang or trigger undefined behaviour",
 "For every byte string given as text, JSON, bech32, URI, path or message to any parser or decoder, and every buffer size given to any encoder, the library returns an error or a result without reading or writing outside the caller's buffers, undefined arithmetic, leaking memory or unbounded work. Whatever a parser returns can be passed to every accessor, serializer and destructor safely.",
 ["inputs"], "all byte strings and lengths for all public entry points that take untrusted data",
 "Tests run without sanitizers on benign strings; memory errors need malformed lengths and contents and an instrumented build to be seen.",
 ["src/event.c", "src/bech32.c", "src/nip21.c", "src/nip05.c", "src/zap.c", "src/nip26.c", "src/nip49.c", "src/hd_key.c", "src/relay_protocol.c", "src/relay_message.c", "src/relay_filter.c", "src/nip51.c", "src/nip65.c", "src/nip10.c", "src/nip18.c", "src/nip25.c"],
 "all public parsers, encoders and destructors", "sanitizers (ASan+UBSan+LSan): seeded structure-aware mutation plus coverage-guided fuzzing (libFuzzer, driver scripts as inputs) of every public parser and encoder, results walked by all accessors; valgrind memcheck over the corpora for uninitialised reads and over-reads inside libraries")
prop("C30", "Running out of memory is reported, never crashes, leaks or corrupts",
 "If any single memory allocation made by a library call fails, the call returns an error (or completes with the same result as without the failure), leaks nothing, leaves its inputs intact and usable (an event being mined keeps the last nonce and time tried), and leaves nothing behind that a later destroy or retry would trip over. Retrying the same call once memory is available gives the normal result.",
 ["fault_sequences", "histories"], "every allocation site of every public operation, each failing in turn",
 "Tests never fail an allocation; each error path runs only when one particular allocation fails.",
 ["src/event.c", "src/nip13.c", "src/nip51.c", "src/nip65.c", "src/relay_filter.c", "src/relay_message.c", "src/relay_protocol.c", "src/relay_nip11.c", "src/nip18.c", "src/nip21.c", "src/nip26.c", "src/zap.c", "src/nip05.c", "src/nip10.c", "src/nip25.c"],
 "every malloc/calloc/realloc/strdup and JSON allocation reached from the public API",
 "allocation-failure injection: the k-th allocation of each operation fails, for every k, under ASan+UBSan+LSan with state-comparison monitors", "fault_enumeration")
prop("C31", "Functions documented as thread-safe are race-free and correct when run together",
 "Any mix of concurrent calls to the functions documented as thread-safe (initialization, cleanup, configuration, key, signing, verification, JSON, bech32, NIP and feature-query functions) on objects of their own, or only reading the same events and filters, is free of data races, deadlocks and crashes; cleanup may run together with initialization, configuration and other cleanups, but not with key, signing or verification calls in flight. Each call returns what it would have returned alone. Readers of the configuration see only whole configurations that were applied, never an older one after a newer one; concurrent updates form one history in which each accepted update is notified exactly once with the configuration it replaced and its own, no update is lost, and a callback may call the configuration functions. Initialization happens effectively once: between cleanups one signing context exists.",
 ["schedules"], "all interleavings of documented thread-safe calls, including first use and re-initialization",
 "The thread test runs a fixed mix without a race detector; races at first use and on configuration change need particular interleavings.",
 ["src/key.c", "src/config.c", "src/features.c", "src/event.c", "src/nip13.c", "docs/THREAD_SAFETY.md"], "global context initialization, config lock, lazily built tables", TSAN)
prop("C32", "The relay client delivers each message once, in order, however fragmented",
 "For any sequence of relay messages (each a WebSocket message of up to about 10 MB, split into any fragments) the client delivers each EVENT for an open subscription once to that subscription's callback and every other message array (OK, EOSE, CLOSED, NOTICE, unknown types) once to the message callback, in order and with the same content; nothing else is delivered. Malformed, oversized or hostile messages never stop later well-formed ones from being delivered. Subscribing again with an id replaces its callback; unsubscribing, or CLOSED from the relay, ends it. Requests the client sends are well-formed REQ, CLOSE and EVENT messages naming exactly the given id (1 to 256 bytes without quotes, backslashes or control characters), filter objects and event; a subscription or event that is refused or cannot be sent has no effect.",
 ["inputs", "histories", "schedules"], "all message sequences, all fragmentations, interleaved with subscribe and unsubscribe",
 "Tests have no live relay, so the receive path is never executed.",
 ["src/relay.c"], "receive buffer reassembly, dispatch table, outgoing message construction",
 "runtime monitoring: real relay.c driven through a scripted transport stand-in under ASan+UBSan, delivery log compared with a reference dispatcher")
prop("C33", "Relay connections open, fail, close and tear down cleanly",
 "Through any sequence of connect, failure, establishment, loss, reconnect, subscribe, send, disconnect and destroy, each relay connects to the host, port and path of its URL, reports exactly the state changes that happened in order, and its state field agrees with them. A lost connection is retried at once when the last attempt is at least five seconds old and otherwise stays disconnected until connected again. Operations outside the connected state fail without effect; connect and disconnect from inside a callback are refused; after disconnect or destroy returns no callback runs and nothing is leaked or used after release. Relays used each from its own thread are independent of one another.",
 ["histories", "schedules", "fault_sequences"], "all lifecycle histories, transport failures at each step, several relays in parallel",
 "Tests only create, fail to connect and destroy; everything after a successful connection is unexecuted.",
 ["src/relay.c"], "connect/disconnect/destroy, service thread, transport callbacks",
 "runtime monitoring: real relay.c over a transport stand-in with injected failures under ASan+UBSan and ThreadSanitizer, state log checked against a lifecycle model")
prop("C34", "Secrets do not outlive their use in library memory",
 "Destroying a key pair, freeing an nsec URI or wiping memory leaves none of the secret bytes in that memory. When a call returns, no memory block it gave back to the allocator, no stack frame of the library and no static storage still contains a private key, seed, mnemonic, passphrase, password, password-derived key, extended key, shared secret, conversation, message or wrapping key, or other key material decrypted or derived from these in raw form (whole, or any 16 consecutive bytes of it), and a failed decryption or key-pair construction leaves no key in its output. This holds on success and on every error path, including failed allocations and failed randomness.",
 ["inputs", "fault_sequences", "configurations"], "all operations handling private keys, seeds, passwords and mnemonics, on success and failure, at each optimization level",
 "Tests cannot see freed memory, dead stack frames or compiler-elided wipes; it needs a monitor on every release and every return.",
 ["src/utils.c", "src/key.c", "src/hd_key.c", "src/nip49.c", "src/nip26.c"], "secure_wipe and its call sites; every stack buffer and heap block that holds secret material",
 "runtime monitoring: the library is built as users build it (gcc -O0 and -O2, clang -O2, mbedTLS) and linked so that every freed block, the stack below the caller (cleared before, copied at return) and static storage are searched for every part of every secret involved, with each allocation (also OpenSSL's) and each draw failing in turn")
prop("C35", "Both crypto backends give identical results",
 "Every deterministic operation gives byte-identical results and the same accept/reject decision whether the library is built with OpenSSL or with mbedTLS, and artefacts made by one build (signatures, encrypted keys, mnemonics, mined events) are accepted by the other. Curve operations give the same results and decisions whether they go to libsecp256k1 directly or through noscrypt, and what a build without cJSON, utf8proc, threads and relay client still offers gives the same answers as the full build (non-ASCII mnemonics and passphrases need utf8proc).",
 ["configurations", "inputs"], "all inputs, two hash backends, two curve backends, full and smallest build",
 "Tests run each backend separately against fixed vectors and never compare them.",
 ["src/key.c", "src/event.c", "src/hd_key.c", "src/nip49.c", "src/nip26.c"], "backend-conditional hashing, HMAC, KDF, AEAD and RNG code",
 "differential runtime monitoring: the same operation histories on both backends under ASan+UBSan, traces compared")
prop("C36", "NIP-04 and NIP-44 encryption round-trips and authenticates",
 "Anything encrypted to a key decrypts, with that key and the sender's, to exactly the same bytes; the NIP-44 payload is the one the specification defines for its nonce, so an independent implementation reads it and the library reads independent ones. Any alteration of a NIP-44 payload, a wrong key, version or padding gives an error and no plaintext, and the same plaintext never encrypts to the same payload twice.",
 ["inputs"], "all plaintexts of 1..65535 bytes around every padding step, all keys, all payload corruptions",
 "The noscrypt dependency is absent from ordinary builds, so these paths are not exercised at all here.",
 ["src/nip44.c"], "padding, payload framing, MAC check and base64 codec",
 "runtime monitoring of the real sources over a noscrypt stand-in, independent NIP-44 implementation as oracle")
prop("C37", "Gift wraps (NIP-59, NIP-17) reach only the recipient and cannot be forged",
 "Wrapping any event for a recipient and unwrapping with the recipient's key returns the same event and the true author; any other key, altered contents of wrap or seal, a seal without its author's valid signature, a wrong kind, or an unsigned rumor whose author differs from the seal's signer is an error and yields no event. If randomness fails, nothing is published in its place. The published wrap carries no author information: its key is fresh each time, its timestamps lie within the two-day past window, and its only tag names the recipient (plus requested ones).",
 ["inputs"], "all events, authors, recipients and tamperings at each layer",
 "These sources are not compiled in ordinary test builds here.",
 ["src/nip59.c", "src/nip17.c"], "seal, gift wrap and unwrap",
 "runtime monitoring of the real sources over a noscrypt stand-in with adversarial seals built by an independent implementation")
prop("C38", "Wallet-connect and remote-signer messages are faithful and budgets hold",
 "What one side of NIP-46 and NIP-47 creates, the other reads back exactly: method, parameters, amounts, result and error, whatever characters and length they have; what cannot be represented (a long signer id, trailing text, a negative balance) is an error, never something else. Malformed connection strings and altered, misdirected or foreign messages are refused. Sessions created at most ten a second and up to the configured number keep to their permissions: the amounts authorized within a reset interval never exceed its limit, amounts that fit are authorized, and expired, destroyed or unknown sessions authorize nothing, under any order or concurrency of calls.",
 ["inputs", "histories", "schedules"], "all URIs, methods and parameters, all session histories and interleavings",
 "These sources are not compiled in ordinary test builds here; budgets are races and overflow questions.",
 ["src/nip47.c", "src/nip47_session.c", "src/nip47_commands.c", "src/nip46.c"], "connection URI parser, request/response codec, session table and permission budget",
 "runtime monitoring of the real sources over a noscrypt stand-in; session budget checked against a sequential model and under ThreadSanitizer")
prop("C39", "Missing arguments are refused cleanly, optional ones may be missing",
 "When a pointer argument that a public function needs is NULL, whatever the other arguments hold, the call does not crash: it fails (an error code, false, NULL, or the documented nothing), leaks nothing, leaves every object it was given as it was and hands out no result. Arguments documented as optional may be NULL, alone or in any combination, and the call then succeeds as otherwise. Freeing and destroying NULL is harmless.",
 ["inputs", "configurations"], "every public function, every combination of missing pointer arguments, ordinary and empty values of the rest",
 "Tests pass NULL for one argument at a time to some functions; the combinations and what happens to the other arguments are not looked at.",
 ["include/nostr.h", "include/nostr_relay_protocol.h", "src"], "the argument checks at the head of every public function",
 "runtime monitoring: all 259 public functions called with every subset of their pointers missing under ASan+UBSan+LSan, inputs compared before and after, outputs poisoned")
prop("C40", "What the library says about itself is true",
 "In every build, a NIP or feature is reported as supported, listed and available exactly when it was built in, and what is reported works; the reported crypto backend is the one in use, and the version is that of the release. Any selection of features gives a library that builds, links and works. Every error code has a name of its own that describes it; any other number is called unknown.",
 ["configurations", "inputs"], "all subsets of the optional features, all NIP numbers and error codes",
 "Tests run in two configurations, while the reports must be right in every one of the many a user can choose.",
 ["src/features.c", "src/key.c", "src/relay_protocol.c", "include/nostr_features.h.in"], "feature switches, feature list, backend, version and error name functions",
 "runtime monitoring of libraries built by the project's own build system with random feature selections: a probe uses each feature and compares with what is reported")

# ids claimed by a registered check (kept in step with what exists)
CLAIMED = json.load(open(os.path.join(HERE, "tools", "claimed.json")))
HOOK_COMMITS = []

def main():
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for p in P:
            f.write(json.dumps(dict(id=p["id"], title=p["title"], statement=p["statement"],
                quantifier=dict(over=p["over"], text=p["text"]), why_tests_cant=p["why"],
                anchors=dict(files=p["files"], mechanism=[dict(name=p["mechanism"], where=", ".join(p["files"]))]))) + "\n")
    checks, na = [], []
    for p in P:
        if p["id"] in CLAIMED:
            checks.append(dict(property=p["id"],
                quick_cmd="python3 run.py %s --tier quick" % p["id"],
                thorough_cmd="python3 run.py %s --tier thorough" % p["id"],
                evidence_file="evidence/%s.json" % p["id"],
                technique=p["tech"], level=p["level"],
                level_note=p["note"] or "Holds on the executions explored; not a proof. See DESIGN.md."))
        else:
            na.append(dict(property=p["id"], reason=CLAIMED_NA.get(p["id"], "check not built yet")))
    m = dict(version=1, setup_cmd="python3 run.py --setup",
             hooks=dict(guard="NONE", enable="", source_commits=HOOK_COMMITS),
             checks=checks, not_applicable=na,
             notes="No source hooks are needed: instrumentation is by sanitizer builds, macro/link interposition and transport stand-ins in /verif/harness.")
    json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
CLAIMED_NA = {}
if __name__ == "__main__":
    main()
