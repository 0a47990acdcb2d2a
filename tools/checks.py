"""Which harness tests decide which property, and how big each tier is."""

LIGHT = './common/light'


def R(pkg, run, **kw):
    return dict(pkg=pkg, run=run, **kw)


CHECKS = {
    'I01': dict(
        technique='property-based testing (rapid): round-trips and a big-integer reference model',
        level_note='Generated-input search; identifiers of every length and boundary shape, not exhaustive. Trusts encoding/hex, encoding/json and math/big.',
        rule='32-byte and shorter byte strings (small, top, mid-ring, powers of two, sparse, random), malformed texts and JSON, lists and sort inputs; non-trivial: every conversion case, lists of two or more, sorts of two or more.',
        runs=[R(LIGHT, '^TestI01_', scale=4, tscale=60)]),
    'K01': dict(
        technique='property-based testing (rapid): sign/verify round-trips with single-site mutations, encoding round-trips, malformed-input fuzzing',
        level_note='Generated-input search over keys, messages and mutations. Trusts the secp256k1 and blake2b libraries.',
        rule='private keys (boundary and random), messages (short, block-boundary, random), one mutation of message, key or (r,s) each; malformed keys and signatures; one key used by 2-6 threads under the race detector; every case is non-trivial.',
        runs=[R(LIGHT, '^TestK01_(Signatures|KeyEncodings|GeneratedKeys|Malformed)', scale=4, shards=4, tscale=40),
              R(LIGHT, '^TestK01_Concurrent', race=True, scale=1, tscale=10, shards=1)]),
    'K02': dict(
        technique='stateful property-based testing (rapid) of generator histories plus concurrent readers under the race detector',
        level_note='Uniqueness is checked on aligned 16-byte pieces of everything read in a run; thread schedules are those the Go scheduler produces.',
        rule='histories of create/reseed/kick/read over several generators with reads of boundary lengths into guarded buffers; concurrent plans of 2-8 readers; non-trivial: two or more reads, or concurrent.',
        runs=[R(LIGHT, '^TestK02_History', scale=1, tscale=15, shards=2),
              R(LIGHT, '^TestK02_Concurrent', race=True, scale=1, tscale=10, shards=1)]),
    'M01': dict(
        technique='property-based testing (rapid): sign/encode/decode/verify round-trips with single-site mutations',
        level_note='Generated-input search over messages of every kind; trusts blake2b and secp256k1.',
        rule='messages of every kind and arbitrary bodies, signed, carried over 0-3 encode/decode trips, one mutation each; every case is non-trivial.',
        runs=[R(LIGHT, '^TestM01_', scale=2, tscale=40, shards=4)]),
    'M02': dict(
        technique='property-based testing (rapid): field-wise round-trip of all 60 message kinds built by reflection, all-pairs type confusion',
        level_note='Field values are generated per type (boundary-heavy integers, identifiers, offers, nested signed messages). Trusts encoding/json.',
        rule='one message of a random kind with generated fields per case, decoded as its own and as each other kind; non-trivial: the message has at least one field; plus single-piece publications with a group offer at a random position.',
        runs=[R(LIGHT, '^TestM02_', scale=2, tscale=40, shards=4)]),
    'M03': dict(
        technique='structure-aware fuzzing (rapid): JSON-level mutation of valid bodies plus raw bytes, oracle: error or complete value',
        level_note='Mutations of valid encodings (dropped, retyped, truncated, resized members at any depth) and raw bytes. A value is complete when no identifier, offer part, key or nested message is missing and parallel lists have one length.',
        rule='non-trivial: the mutated bytes differ from the valid encoding and reach the decoder of their kind.',
        runs=[R(LIGHT, '^TestM03_', scale=3, tscale=60, shards=4)]),
    'O01': dict(
        technique='property-based testing (rapid): metamorphic single-term alterations under one signature; clock-bracketed expiry oracle',
        level_note='Groups without repeated pieces (a trailing repeat has the root of the shorter group by construction of the merkle library). Trusts SHA-256 and secp256k1.',
        rule='offers of 1-9 distinct pieces with boundary-heavy terms, one altered term, piece set or order per case, six bad signatures each; expiry around the present and at the extremes; every case is non-trivial.',
        runs=[R(LIGHT, '^TestO01_', scale=3, tscale=60, shards=4)]),
    'O02': dict(
        technique='property-based testing (rapid): proofs of every member of generated groups, adversarial proof alterations, byte-level fuzzing of proofs',
        level_note='Groups of 1-70 pieces; adversarial proofs are single alterations, made-up proofs and shortened proofs of tree nodes. Trusts SHA-256.',
        rule='non-trivial: groups of two or more pieces (all members proved, one member attacked); mutated proof texts.',
        runs=[R(LIGHT, '^TestO02_', scale=3, tscale=60, shards=4)]),
    'D01': dict(
        technique='stateful model-based testing (rapid): histories of insertions, removals and queries against a set of big integers',
        level_note='Histories of up to 40 operations over boundary-heavy identifiers (neighbours, midpoints, antipodes of members, either letter case).',
        rule='non-trivial: a history with at least one query on two or more members.',
        runs=[R(LIGHT, '^TestD01_', scale=12, tscale=300, shards=4)]),
    'S01': dict(
        technique='stateful model-based testing (rapid): histories of additions and queries against a list model, with real expiry',
        level_note='Histories of up to 25 operations over a shared pool of pieces; expiry observed with real clocks of one-second grain.',
        rule='non-trivial: two or more offers in the store (labelled when they share a piece); stores with offers that expire while stored.',
        runs=[R(LIGHT, '^TestS01_History', scale=5, tscale=100, shards=3), R(LIGHT, '^TestS01_Expiring', scale=1, tscale=20, shards=2, tshards=4)]),
    'S03': dict(
        technique='stateful model-based testing (rapid) over several process lifetimes and time zones, with kill-at-random-point fault injection and concurrent clients',
        level_note='Crash = SIGKILL of the process (not power loss). Histories of up to 3 process lifetimes of 14 operations. Trusts SQLite.',
        rule='non-trivial: two or more offers stored; killed while adding; concurrent plans; offers that expire while stored.',
        runs=[R('./common/store', '^TestS03_(History|Crash|Concurrent)', scale=4, tscale=120, shards=6), R('./common/store', '^TestS03_Expiring', scale=2, tscale=40, shards=2)]),
    'P01': dict(
        technique='stateful model-based testing (rapid) of payer histories against a simulated chain node with injected faults',
        level_note='The chain node is a JSON-RPC stand-in that verifies signatures and keeps balances. Histories of up to 30 operations over several recipients and lanes; trusts secp256k1 and the Filecoin libraries.',
        rule='top-ups, payments (small, exactly covering, over, negative, zero), chain faults at every call, bad recipients; non-trivial: a history with granted and refused payments.',
        runs=[R('./common/pay', '^TestP01_', scale=30, tscale=200, shards=4)]),
    'P02': dict(
        technique='stateful model-based testing (rapid) of voucher presentations with adversarial vouchers and injected chain faults',
        level_note='Adversarial vouchers are single alterations, replays, misdirections and forgeries of real ones. Same simulated chain as P01.',
        rule='histories of presentations over several channels and lanes with replays, reorderings, alterations, foreign and respelled channels, odd channel states and chain faults; non-trivial: vouchers both credited and refused.',
        runs=[R('./common/pay', '^TestP02_', scale=20, tscale=200, shards=4)]),
    'P03': dict(
        technique='randomised concurrent plans (rapid) under the race detector with chain responses delayed at chosen calls; oracle: conservation invariants over all granted vouchers',
        level_note='Schedules are those produced by the Go scheduler and the generated chain delays; not exhaustive.',
        rule='2-6 concurrent top-ups, payments and presentations per round over shared and distinct recipients with generated delays at chain calls; every case is non-trivial.',
        runs=[R('./common/pay', '^TestP03_', race=True, scale=7, tscale=80, shards=4)]),
    'S02': dict(
        technique='randomised concurrent plans (rapid) under the race detector; oracle: real-time visibility and conservation of every addition',
        level_note='Schedules are those the Go scheduler produces under the race detector; not exhaustive.',
        rule='plans of 2-8 threads adding and querying offers over shared and distinct pieces, or changing the scores of 1-3 clients; every case is non-trivial.',
        runs=[R(LIGHT, '^TestS02_', race=True, scale=2, tscale=40, shards=3), R('./gateway/vt', '^TestS02_', race=True, scale=10, tscale=100, shards=1)]),
    'D02': dict(
        technique='stateful model-based testing (rapid) of register histories against a fake register service, plus concurrent plans under the race detector',
        level_note='Histories of registrations, changes, malformed entries, refreshes (forced, periodic, with the register failing) and queries, also while batches are being taken up; nearest gateways compared with a big-integer reference. Schedules are those of the Go scheduler.',
        rule='non-trivial: a history with a refresh that changes the view and at least one query; concurrent plans.',
        runs=[R('./common/net', '^TestD02_Mirror', scale=10, tscale=150, shards=4), R('./common/net', '^TestD02_Concurrent', race=True, scale=1, tscale=15, shards=2),
              R('./common/net', '^TestD02_Periodic', scale=2, tscale=40, shards=2), R('./common/net', '^TestD02_(Queries|Large)', scale=1, tscale=20, shards=2)]),
    'N01': dict(
        technique='property-based testing and fault injection (rapid): generated message sequences over generated segmentations, truncations, pauses and garbage on raw TCP',
        level_note='Loopback TCP with TCP_NODELAY; segmentations by generated cuts and pauses. Time limits are several times the node\'s own timeouts.',
        rule='sequences of messages of boundary sizes cut at generated points, in both directions, with truncations, stalls, closes, false lengths and undecodable bodies; non-trivial: more than one message, more than one segment, or a fault.',
        runs=[R('./common/net', '^TestN01_Incoming', scale=1, tscale=15, shards=2), R('./common/net', '^TestN01_Stall', scale=1, tscale=10, shards=2), R('./common/net', '^TestN01_Outgoing', scale=1, tscale=15, shards=2)]),
    'N02': dict(
        technique='stateful testing (rapid) of request histories against peers with generated failures, and concurrent plans under the race detector',
        level_note='Peers are raw TCP stand-ins that answer, stall, close, restart or lie; schedules are those of the Go scheduler and the generated delays.',
        rule='non-trivial: a history with at least one failing and one answered request; concurrent plans of several callers per peer.',
        runs=[R('./common/net', '^TestN02_History', scale=2, tscale=30, shards=4), R('./common/net', '^TestN02_Concurrent', race=True, scale=2, tscale=30, shards=2),
              R('./common/net', '^TestN02_Idle', scale=1, tscale=20, shards=1, tshards=4)]),
    'N03': dict(
        technique='property-based testing (rapid): generated routing tables, messages, malformed bodies and reply statuses over HTTP',
        level_note='Generated endpoint/type assignments and bodies over loopback HTTP.',
        rule='non-trivial: a routed message to a table of two or more handlers, or an error case.',
        runs=[R('./common/net', '^TestN03_', scale=2, tscale=30, shards=3)]),
    'R01': dict(
        technique='stateful model-based testing (rapid) of HTTP operation histories against a map model with injected storage faults; concurrent plans under the race detector',
        level_note='The storage is an in-process stand-in speaking the redis protocol that fails, disconnects, goes down or limits its connections as generated. Not the real redis.',
        rule='non-trivial: histories of two or more operations (labelled: storage failure reported, both kinds registered); registrations through the register manager; concurrent plans.',
        runs=[R('./register/vt', '^TestR01_(History|Manager)', scale=5, tscale=60, shards=4), R('./register/vt', '^TestR01_Concurrent', race=True, scale=2, tscale=20, shards=2)]),
    'G02': dict(
        technique='stateful model-based testing (rapid) of the running gateway over HTTP and TCP with generated publications, requests and payments, one after another and concurrent',
        level_note='The real gateway process with stand-ins for the register and the chain node; offers of about-now expiry accept either answer. Requests are generated, not exhaustive.',
        rule='1-8 requests (free, paid in 14 ways, expired, malformed, establishment) over 1-4 pieces with 0-6 publications; non-trivial: a paid or free request for a piece with offers, or an unpaid one.',
        runs=[R('./nodes', '^TestG02_', scale=30, tscale=400, shards=4, bins=['gateway'])]),
    'G03': dict(
        technique='stateful model-based testing (rapid) of the running gateway over HTTP and TCP with generated publications, purchases and payments, one after another and concurrent',
        level_note='The real gateway process with stand-ins for the register and the chain node. Digests asked for are distinct within a request.',
        rule='1-7 purchases by clients and peers of held, foreign, unknown and malformed digests with 14 kinds of payment; non-trivial: a paid purchase of a held offer, or an unpaid one.',
        runs=[R('./nodes', '^TestG03_', scale=30, tscale=400, shards=4, bins=['gateway'])]),
    'G04': dict(
        technique='stateful model-based testing (rapid) of the running gateway with flawed publications, key changes and listed publications; oracle: the discoverable offers',
        level_note='The real gateway process; single flaws per publication (13 kinds); what is stored is observed through discovery.',
        rule='1-6 publications of single-piece or group offers, each authentic or with one flaw, on one or several connections or concurrent; lists fetched from a provider with flawed members; changes of the registered key; every case is non-trivial unless a list is empty.',
        runs=[R('./nodes', '^TestG04_', scale=20, tscale=300, shards=4, bins=['gateway'])]),
    'G05': dict(
        technique='stateful model-based testing (rapid) of the running gateway\'s peer interface with generated offers, flawed queries, key changes and payments, one after another and concurrent',
        level_note='The real gateway process with stand-ins for the register and the chain node; 8 single flaws per query and 14 kinds of payment.',
        rule='1-8 queries (free or paid) from 2-4 registered peers, authentic or with one flaw, over 1-4 pieces with 0-6 publications; non-trivial: an authentic query for a held piece, or a flawed query.',
        runs=[R('./nodes', '^TestG05_', scale=20, tscale=300, shards=4, bins=['gateway'])]),
    'G06': dict(
        technique='stateful model-based testing (rapid) of the running gateway among up to 40 stand-in peers with generated failures and forgeries; oracle: nearest-peer reference, the peers\' own records and the chain\'s',
        level_note='The real gateway process; peers are stand-ins that answer honestly, late, about something else, forged, altered, cut short or not at all. Stalled peers are covered by N02.',
        rule='1-4 searches or purchases (free, paid in 14 ways, expired, malformed, of nobody), one after another or together, of 1-1000 peers among 1-40; non-trivial: a paid search, a search with failing peers, an unpaid search.',
        runs=[R('./nodes', '^TestG06_', scale=8, tscale=100, shards=4, bins=['gateway'])]),
    'V01': dict(
        technique='stateful model-based testing (rapid) of the running provider among up to 40 stand-in gateways with generated failures and forged acknowledgements; oracle: nearest-gateway reference and the gateways\' own records',
        level_note='The real provider process; gateways are stand-ins that acknowledge honestly, late, about something else, forged, altered, cut short or not at all. Stalled peers are covered by N02.',
        rule='1-3 steps of one publication or 2-3 concurrent ones (1-5 single-piece offers, or a group of 2-6) among 1-40 gateways with 17 behaviours; non-trivial: at least one gateway is there to get it.',
        runs=[R('./nodes', '^TestV01_', scale=6, tscale=250, shards=4, bins=['provider'])]),
    'V02': dict(
        technique='stateful model-based testing (rapid) of the running provider with generated publications, range requests, forged requests and acknowledgements; oracle: a set model over the clockwise range',
        level_note='The real provider process; up to about 700 offers and 3 joining gateways. When more offers are in the range than the maximum, any of them are accepted.',
        rule='2-8 steps of publications, range requests with 11 kinds of acknowledgement, concurrent requests, forged requests and key changes; non-trivial: a list with offers is handed out.',
        runs=[R('./nodes', '^TestV02_List', scale=15, tscale=400, shards=3, bins=['provider']), R('./nodes', '^TestV02_Many', scale=1, tscale=10, shards=2, bins=['provider'])]),
    'V03': dict(
        technique='stateful model-based testing (rapid) of evidence queries to the running provider, and of subscription histories against its handler under the race detector',
        level_note='Evidence: the real provider process among stand-in gateways. Subscriptions: the handler behind the real TCP server in the test process, the set being read from the provider\'s core as no interface shows it.',
        rule='1-5 steps of publications with 17 gateway behaviours, concurrent queries, queries about strangers; 1-14 notifications, authentic or with one of 7 flaws, key changes, concurrent ones; non-trivial: evidence is given, a subscription changes.',
        runs=[R('./nodes', '^TestV03_', scale=10, tscale=300, shards=4, bins=['provider']), R('./provider/vt', '^TestV03_', race=True, scale=2, tscale=40, shards=2)]),
    'A01': dict(
        technique='property-based testing (rapid): generated administrative calls against scripted nodes with genuine, denied, forged and malformed answers; stateful testing of the libraries and of running nodes over initialisation histories',
        level_note='The libraries are called in-process over loopback HTTP; the nodes are the real gateway and provider processes. The wallet in use is observed through which payments a gateway accepts; a provider\'s wallet shows nowhere.',
        rule='one of 13 calls with generated arguments and one of 22 kinds of answer; library histories of 1-12 operations over three nodes with five moods; node histories of refused requests, good and flawed initialisations and probes; every such case is non-trivial.',
        runs=[R('./admin', '^TestA01_', scale=3, tscale=60, shards=3), R('./nodes', '^TestA01_', scale=2, tscale=60, shards=4, bins=['gateway', 'provider'])]),
    'G01': dict(
        technique='stateful model-based testing (rapid) of event and assignment histories, concurrent plans under the race detector; oracle: the score table with limits in wide arithmetic',
        level_note='The reputation table and its administrative handlers behind the real HTTP server in the test process, queried also through the administration library. Events of unknown clients are excluded: they have no score to change.',
        rule='1-40 steps (establishment, eleven other events singly and in bursts up to 60, assignments of any 64 bit score directly and by the administrator, look-ups) over 1-4 clients; 2-8 threads of 1-40 events; non-trivial: a limit is reached, several clients have events, a score is assigned, concurrent events.',
        runs=[R('./gateway/vt', '^TestG01_History', scale=30, tscale=600, shards=4), R('./gateway/vt', '^TestG01_Concurrent', race=True, scale=30, tscale=300, shards=2)]),
    'C01': dict(
        technique='property-based testing (rapid) of the client library against scripted gateways giving generated mixtures of genuine, forged, foreign, altered and malformed offers and answers; oracle: which offers were genuine when dealt',
        level_note='The library in-process over loopback HTTP, with stand-ins for gateways, register and chain node. A wholly malformed element among the offers may cost the answer it is in.',
        rule='0-6 offers of 17 kinds per gateway, 1-5 gateways, genuine or flawed answers (envelope, transport, nonce, piece, signer); non-trivial: a genuine offer is delivered, or a flawed one or flawed answer.',
        runs=[R('./client', '^TestC01_', scale=4, tscale=60, shards=4)]),
    'C02': dict(
        technique='stateful model-based testing (rapid) of histories of set operations and paid searches of the client library against scripted gateways and a simulated chain; concurrent plans under the race detector; oracle: set model and account model',
        level_note='The library in-process over loopback HTTP, with stand-ins for gateways, register and chain node. Gateways stay in the register once there. Concurrent top-ups are checked for whole steps only, not for need.',
        rule='1-25 set operations over 1-7 gateways with 10 kinds of registration and 21 establishment moods; 1-8 paid searches (standard, DHT) over 3 gateways and up to 3 wallets with any prices, answers and chain faults; concurrent operations and searches; non-trivial: a set changes, a discovery is tried, a payment is made, concurrent.',
        runs=[R('./client', '^TestC02_(Sets|Spending)$', scale=5, tscale=60, shards=4), R('./client', '^TestC02_(Concurrent|Meanwhile|SpendingTogether)', race=True, scale=3, tscale=40, shards=2)]),
    'C03': dict(
        technique='property-based testing (rapid): genuine evidence and generated alterations, substitutions and omissions of its parts given by a scripted provider; oracle: convinced exactly without flaw',
        level_note='The library in-process over loopback HTTP. The acknowledgement\'s nonce and the offers\' own signatures are not part of the claim.',
        rule='publications of 1-8 offers with acknowledgement, none, one or two of 50 flaws, registrations of provider and gateway sound or with one of 16 faults; every case is non-trivial.',
        runs=[R('./client', '^TestC03_', scale=4, tscale=60, shards=4)]),
    'E01': dict(
        technique='stateful model-based testing (rapid) of a network of running gateways and providers, driven through the client library and the administrators\' messages; oracle: a model of what each gateway holds and of the client\'s accounts',
        level_note='Real gateway and provider processes (3-6, and 18-20, gateways; 2 providers) and the client library, among a stand-in register and a simulated chain. Networks of more than 16 gateways get publications of one offer or a group. Paid searches run one after another.',
        rule='3-9 steps of publications (1-4 single-piece offers or a group, any terms), searches in 4 ways through any gateway for any number and limit, and evidence queries, then a complete comparison; gateways that join; publications and searches at once; non-trivial: offers are found and evidence is given, offers are bought, a joining gateway gets offers, searches meet publications.',
        runs=[R('./nodes', '^TestE01_', scale=8, tscale=400, shards=4, bins=['gateway', 'provider']), R('./nodes', '^TestE01_', scale=1, tscale=30, shards=1, env={'E01_GATEWAYS': '18'}, bins=['gateway', 'provider'])]),
    'F01': dict(
        technique='property-based testing (rapid): generated environments, command lines and settings histories; oracle: the settings they stand for, computed by the generator; running nodes timed from the register',
        level_note='Configurations are mapped in-process and by re-executed test processes; refresh intervals are observed on the real gateway and provider processes. Numbers outside the documented kinds (log sizes, signature algorithm) are generated valid only.',
        rule='every variable given, absent or malformed, amounts of 1-41 digits, durations of 1 ns-1000 h; command lines with and without --ip; 1-3 configurations after one another; 0-12 calls of each settings builder; nodes with intervals of 150-900 ms or unusable ones, given in the environment or the .env file; every case is non-trivial.',
        runs=[R('./gateway/vt', '^TestF01_', scale=8, tscale=200, shards=2), R('./provider/vt', '^TestF01_', scale=8, tscale=200, shards=2),
              R('./client', '^TestF01_', scale=4, tscale=100, shards=1), R('./admin', '^TestF01_', scale=4, tscale=100, shards=1),
              R('./nodes', '^TestF01_', scale=2, tscale=20, shards=3, bins=['gateway', 'provider'])]),
    'L01': dict(
        technique='stateful model-based testing (rapid): histories of messages, level changes and initialisations, concurrent bursts, rotation and fatal errors, against a list of what must be in the log; running nodes',
        level_note='Rotated logs are observed at 1-2 MB per file with messages at least 2 ms apart. Ages of logs are not waited for. Trusts zerolog, lumberjack and encoding/json.',
        rule='1-14 steps on 1-6 logs (standard output, files, directories that cannot be made), levels in any case or unknown, texts of any bytes and formats, bursts of 2-6 threads; 1-5 MB of messages over size, backup and compression settings; fatal errors in processes of their own; gateways and providers with a generated log configuration; non-trivial: messages are logged or held back, the log rotates, a process ends, a node runs.',
        runs=[R('./common/log', '^TestL01_(Histories|Fatal)', scale=10, tscale=300, shards=2), R('./common/log', '^TestL01_Rotation', scale=3, tscale=60, shards=2),
              R('./nodes', '^TestL01_', scale=4, tscale=40, shards=1, bins=['gateway', 'provider'])]),
    'K03': dict(
        technique='property-based testing (rapid): generated good and bad initialisations, administration, trade and hostile messages at running nodes, with everything they emit at the finest log level searched for their secrets',
        level_note='Searched are standard output and error, files, REST answers, peer messages, and requests to the register and the chain, for the keys in raw, hexadecimal, base64 (any alignment), decimal and list form. Other encodings, and what could be derived from timing, are not considered.',
        rule='1-12 initialisations with keys and wallets that are good, cut, lengthened or not hexadecimal, in damaged messages, with and without a wallet; the histories of A01, E01, G06 and X01; non-trivial: a node was given keys and answered requests.',
        runs=[R('./nodes', '^TestK03_', scale=10, tscale=200, shards=1, env={'VERIF_TAP': '1'}, bins=['gateway', 'provider']),
              R('./nodes', '^TestA01_', scale=1, tscale=20, shards=2, env={'VERIF_TAP': '1'}, bins=['gateway', 'provider']),
              R('./nodes', '^TestE01_Network', scale=2, tscale=30, shards=2, env={'VERIF_TAP': '1'}, bins=['gateway', 'provider']),
              R('./nodes', '^TestG06_', scale=2, tscale=20, shards=2, env={'VERIF_TAP': '1'}, bins=['gateway']),
              R('./nodes', '^TestX01_', scale=1, tscale=20, shards=2, env={'VERIF_TAP': '1'}, bins=['gateway', 'provider'])]),
    'X01': dict(
        technique='property-based testing (rapid) as structure-aware fuzzing of running nodes: generated hostile messages, frames, answers and register contents, each case followed by honest requests; oracle: the process lives, no handler crashes, and the honest requests get the answers a model of the node expects',
        level_note='Real gateway and provider processes among two hostile gateways, two hostile providers, a hostile register and simulated chain, with one honest peer. Nodes are initialised (with a wallet) by their administrator; hostile initialisation requests are left out, as they rightly take a node over. Overload is not generated.',
        rule='1-8 attacks of up to 3 messages at every access point: messages of all kinds with fields missing, altered, of other types or extreme, with real ids, pieces, digests and vouchers in them, signed by registered nodes or not, in right or wrong frames; answers of the same sort, cut, doubled or silent; damaged register contents; then honest publications, searches, queries and listings; non-trivial: at least one attack is made.',
        runs=[R('./nodes', '^TestX01_', scale=8, tscale=120, shards=4, bins=['gateway', 'provider'])]),
}

# Properties without a check, with the reason.
NOT_APPLICABLE = {}
