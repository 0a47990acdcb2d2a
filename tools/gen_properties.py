#!/usr/bin/env python3
# Source of /verif/properties.jsonl: run this file to regenerate it.
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech])))

C="common/pkg/"
p("I01","Content and node identifiers are canonical and lossless",
 "Every 32-byte content or node identifier survives conversion through each of its forms (bytes, lowercase 64-digit hex, JSON, fixed array, big integer, and lists of hex strings) unchanged, shorter inputs are left-padded with zeros, and equality, hashing and ordering agree with the 32 bytes. Inputs that do not denote a 32-byte identifier (more than 32 bytes, non-hex text, JSON of another length) are refused with an error and never yield an identifier or a crash. Sorting identifiers clockwise from a start yields a permutation of the input in ascending circular order beginning at the first identifier not below the start.",
 ["inputs"],"all byte strings of 0..80 bytes, all hex and non-hex strings, all lists of identifiers",
 "The tests convert a handful of fixed ids; leading zeros, the 32/33-byte boundary, mixed case and every mutation of a valid encoding are only sampled once or not at all.",
 [C+"cid/contentid.go",C+"nodeid/nodeid.go"],
 [("constructors, ToString, ToBytes, JSON (un)marshalling",C+"cid, "+C+"nodeid"),("SortClockwise",C+"nodeid/nodeid.go")])
p("K01","Signatures authenticate exactly the signed content and signer",
 "A signature made with a private key over a message verifies with the matching public key over the same message, and with no other message, no altered signature value and no other key; the key version embedded in it can be read back unchanged. Private keys, public keys, key versions and node ids derived from keys survive their textual and binary encodings, so that a decoded key signs, verifies and identifies exactly as the original. One key pair can be used by many threads at once, each getting what it would get alone. Malformed keys, key versions and signatures are refused with an error and never crash the process.",
 ["inputs","schedules"],"all keys, messages, concurrent uses of one key, key versions, single- and multi-byte alterations of signatures and encodings, and arbitrary malformed strings",
 "The tests use fixed keys and messages on one thread and two or three malformed strings; soundness is a statement about every other message, key and signature.",
 [C+"fcrcrypto/key.go",C+"fcrcrypto/message_signing.go",C+"fcrcrypto/key_version.go",C+"fcrcrypto/retrieval_v1.go"],
 [("SignMessage / VerifyMessage / ExtractKeyVersionFromMessage",C+"fcrcrypto"),("Encode/Decode of private and public keys",C+"fcrcrypto")])
p("K02","The random source never repeats or shares output",
 "Every read from the pseudo random source fills the whole requested buffer, never writes outside it, leaves the caller's seed and domain buffers untouched, and delivers bytes no other read from any generator delivers. This holds for every request size, for generators created from the same or different domains, when entropy is reseeded between reads, and when many threads read concurrently.",
 ["inputs","schedules"],"all read sizes and sequences, all security domains, concurrent readers",
 "The tests read once or twice from one generator on one thread; repetition and races need many sizes, generators and concurrent readers.",
 [C+"fcrcrypto/random.go",C+"fcrcrypto/prng.go"],
 [("GetPRNG / NewPRNG / Read",C+"fcrcrypto")])
p("M01","A signed message envelope binds its content and survives transport",
 "A protocol message signed by a node verifies under that node's public key after any number of encode/decode trips, and stops verifying when its type, protocol versions, body or signature value change or a different key is used. Verification does not alter the message: repeating it, or verifying with a wrong key first, gives the same answers, and encoding it afterwards gives the same bytes. Encoding then decoding preserves type, protocol version, supported versions, body and signature exactly.",
 ["inputs","histories"],"all message types, bodies, versions, keys, single-field tamperings and sequences of sign, verify, encode and decode",
 "Tests sign and verify one message once; order of operations and every field of the envelope are not varied.",
 [C+"fcrmessages/fcrmessage.go"],[("Sign / Verify / FCRMsgToBytes / FCRMsgFromBytes",C+"fcrmessages/fcrmessage.go")])
p("M02","Every protocol message carries its fields faithfully and only as its own type",
 "For each of the protocol's request and response messages, decoding an encoded message returns exactly the field values it was built from, including across transport encoding, for every value of every field. Decoding a message as any kind other than its own message type is refused. A message claiming single-piece offers is refused when any of them covers another number of pieces.",
 ["inputs"],"all field values of all message kinds (identifiers, 64-bit integers, strings, lists of 0..n elements, nested messages and offers), and all pairs of message types",
 "Each message has one or two fixed-value tests; boundary integers, empty and long lists, nested signed messages and the full type matrix are not exercised.",
 [C+"fcrmessages"],[("Encode*/Decode* pairs",C+"fcrmessages/*.go"),("message type registry",C+"fcrmessages/type.go")])
p("M03","Hostile bytes are rejected, never crash a node and never half-decode",
 "Whatever bytes arrive, decoding a protocol message, any typed message body, an offer, a sub-offer, a merkle proof, a key or an identifier either returns an error or returns a complete value all of whose parts are usable; it never crashes. A decoded message never has missing identifiers, missing offer parts or missing keys, so a handler can use every field it was given.",
 ["inputs"],"arbitrary byte strings and every structured mutation (deleted, emptied, truncated, retyped, extended or replaced field) of valid messages of every kind",
 "Tests cover a type mismatch and one invalid JSON string per message; no test decodes a well-formed message with a malformed field.",
 [C+"fcrmessages",C+"cidoffer",C+"fcrmerkletree",C+"cid",C+"nodeid"],
 [("Decode*",C+"fcrmessages"),("UnmarshalJSON",C+"cidoffer, "+C+"fcrmerkletree")])
p("O01","An offer's signature commits the provider to every term of the offer",
 "A provider-signed offer verifies under the provider's key, before and after serialisation, and stops verifying when its provider, any piece identifier, the set or order of pieces, price, expiry, quality of service or signature value changes; a sub-offer cut from it carries the same terms and verifies under the same key. The offer's digest is the same for the same terms and different for different terms, and survives its textual encoding. An offer is expired exactly when its expiry lies in the past.",
 ["inputs"],"all offers of 1..n pieces with any price, expiry and quality of service, and all single-term alterations",
 "Tests use two fixed offers and alter one or two fields; binding is a statement about every field and every alteration.",
 [C+"cidoffer/cidoffer.go",C+"cidoffer/subcidoffer.go"],[("Sign / Verify / GetMessageDigest / HasExpired",C+"cidoffer")])
p("O02","Inclusion proofs exist for every offered piece and for nothing else",
 "For every group of pieces and every member, the sub-offer generated for it carries a proof that verifies, before and after serialisation, and generating it leaves the offer and its pieces unchanged. No proof verifies for a piece outside the group, for another group's root, nor after an alteration of the piece, the root or a hash in the proof, and a malformed proof is rejected rather than crashing. A sub-offer cannot be generated for a piece the offer does not contain.",
 ["inputs"],"all groups of 1..n pieces (including duplicates and non-powers of two), all members and non-members, all alterations of proofs",
 "Tests cover groups of three fixed pieces; tree shapes, the position of the piece, and forged proofs are not varied.",
 [C+"fcrmerkletree",C+"cidoffer"],[("GenerateMerkleProof / VerifyContent",C+"fcrmerkletree"),("GenerateSubCIDOffer / VerifyMerkleProof",C+"cidoffer")])
p("D01","The DHT ring is an exact set on the circular identifier space",
 "After any sequence of insertions, removals and queries, the ring contains exactly the identifiers inserted and not removed, once each, and queries never change it. A closest query returns the requested number (or all there are) of the members nearest to the target by circular distance, in clockwise order, leaving out the excluded one; a range query returns exactly the members met when walking clockwise from start to end inclusive. Invalid input is refused, and no valid call crashes or hangs, including on empty and single-member rings, for a range whose ends coincide, and whatever the letter case of the hex digits.",
 ["inputs","histories"],"all histories of insert, remove, closest and range calls with any identifiers, counts and exclusions, on rings of 0..n members",
 "The tests replay a few fixed sequences on rings of four and eighteen members; pointer and distance bookkeeping after removals is a property of histories.",
 [C+"dhtring/dhtring.go"],[("Insert / Remove / GetClosest / GetWithinRange / Size",C+"dhtring/dhtring.go")])
p("D02","The registry mirror agrees with the register and picks the right peers",
 "After a refresh, the node's view of gateways and providers contains every entry the register service lists, with the listed details, across any history of registrations, key or address changes and refreshes, and looking up an unknown gateway finds one that has just been registered. Asking for the gateways near a piece returns the requested number (up to 16, or all when fewer are registered) of distinct registered gateways nearest to it, without the excluded one, and the piece range reported for a gateway is spanned by its nearest gateways. Malformed register entries do not disturb the others, and concurrent lookups and refreshes always complete with a consistent answer.",
 ["histories","inputs","schedules"],"all register contents and histories of registration, change, refresh and lookup, with concurrent readers",
 "Tests use mocks with fixed lists of well-formed entries and never change an entry, race readers with a refresh or look at the nearest-gateway choice.",
 [C+"fcrregistermgr",C+"dhtring",C+"register"],[("updateGateways / updateProviders, GetGateway, GetGatewaysNearCID, GetGatewayCIDRange",C+"fcrregistermgr")])
p("R01","The register service stores and lists exactly what was registered",
 "Over any history of registrations, look-ups, listings and deletions of gateways and providers, a look-up by id returns the most recent registration under that id with every field unchanged or a not-found error, a listing contains each registered node exactly once, and deleting one kind removes all of that kind and none of the other; the same holds for registrations made and read through the register manager, which reports a refused registration as an error. A storage failure is reported as an error response and does not bring the service down.",
 ["histories","inputs","fault_sequences"],"all histories of the register's HTTP operations with any field contents, and storage failures at any point",
 "The register has no tests in the stable suite at all.",
 ["register/internal/handlers","register/models","register/restapi"],[("gateway and provider handlers","register/internal/handlers")])
p("S01","The in-memory offer store answers exactly from what was published",
 "At any point in any history of additions and queries, looking up a piece returns exactly the unexpired offers added that contain it, each once, from the group set, the single-piece set or both as asked, and reports existence truthfully; looking up a digest returns the unexpired offer with that digest and nothing else. Group additions accept only offers of two or more pieces and single additions only offers of exactly one piece. A range query returns the unexpired single-piece offers whose piece lies in the clockwise range, each once, and never more than the requested maximum.",
 ["histories","inputs"],"all histories of adding offers (duplicates, shared pieces, past and future expiry) and of all queries",
 "Tests add one or two offers and query once; sharing of pieces between offers, duplicates, expiry and range limits interact only over histories.",
 [C+"fcroffermgr"],[("AddGroupOffer / AddDHTOffer / GetOffers / GetDHTOffersWithinRange / GetOfferByDigest",C+"fcroffermgr")])
p("S02","Concurrent use of the offer store and reputation loses and corrupts nothing",
 "When many threads add and query offers at the same time, every query sees only complete offers that were added, every offer whose addition had returned before the query began is found, and after all threads finish the store holds exactly the offers added. The same holds for the shared reputation table: every concurrent change is applied. No access is a data race and no thread is blocked for ever.",
 ["schedules","histories"],"all interleavings of concurrent additions and queries on shared and distinct pieces",
 "All tests of these stores are single threaded.",
 [C+"fcroffermgr","gateway/internal/reputation",C+"dhtring"],[("per-piece storage locking",C+"fcroffermgr"),("reputation map locks","gateway/internal/reputation")])
p("S03","The persistent offer store answers exactly from what was published",
 "At any point in any history of additions and queries, including re-opening the database, looking up a piece or a digest returns exactly the unexpired offers added, each once and with every term, piece, piece order and signature intact, so that a returned offer still verifies. A range query over pieces returns each matching unexpired offer once and at most the requested maximum. Adding the same offer again changes nothing, and the answers do not depend on the time zone of the host.",
 ["histories","inputs","configurations"],"all histories of adding and querying offers with any terms, restarts, concurrent callers and host time zones",
 "Tests insert a few offers and query them in one process in the local time zone; the database and its queries are exercised on single fixed rows.",
 [C+"offermgr",C+"database"],[("insertOffer / selectOffers*",C+"offermgr")])
p("P01","A payer's vouchers add up to what was paid and never exceed the deposit",
 "Over any history of top-ups and payments to any recipients on any lanes, a payment is granted exactly when the channel's deposits cover everything already promised plus the amount, a refused payment changes nothing, and each voucher names the recipient's channel, carries that lane's running total and next sequence number and is signed by the payer. Amounts passed in by the caller are never modified. A failed top-up changes nothing, one that the chain takes time to settle is not reported before it is settled, and each recipient, however its address is spelled, has one channel holding the sum of its successful top-ups.",
 ["histories","inputs","fault_sequences"],"all histories of top-ups and payments over recipients, lanes and amounts, with failures of the chain node at any call",
 "The payment tests need a live chain node and are skipped; only constructor errors run.",
 [C+"fcrpaymentmgr/payment_manager.go"],[("Topup / Pay",C+"fcrpaymentmgr")])
p("P02","A recipient credits each authentic voucher's value once and nothing else",
 "Over any history of vouchers presented to a recipient, the amount credited for a channel's lane always totals the highest voucher amount accepted on it, and the total over all lanes never exceeds the channel's on-chain balance; any voucher a payer issues for a covered payment, presented in order, is credited with exactly that payment. A voucher that was already credited, is out of order, altered, signed by anyone but the channel's owner, made for another channel or for a channel paying someone else, or whose redemption is subject to a condition or to merging other lanes, is refused and changes nothing. A malformed voucher or unexpected channel state is refused without crashing.",
 ["histories","inputs","fault_sequences"],"all histories of presenting valid, replayed, reordered, altered and misdirected vouchers over channels and lanes, with chain balances growing and chain errors",
 "No stable test ever presents a voucher.",
 [C+"fcrpaymentmgr/payment_manager.go"],[("Receive",C+"fcrpaymentmgr")])
p("P03","Concurrent payments neither double-spend nor lose money",
 "However concurrent top-ups and payments to the same or different recipients interleave with chain delays, the granted payments never exceed the deposits, no two vouchers of a lane share a sequence number, every deposit made on chain remains spendable and a recipient gets only one channel. However concurrent presentations of vouchers interleave, each voucher is credited at most once.",
 ["schedules","histories"],"all interleavings of concurrent top-up, pay and receive calls, with chain responses delayed and reordered",
 "There are no concurrent payment tests; the windows are between chain calls that only a controlled chain node can hold open.",
 [C+"fcrpaymentmgr/payment_manager.go"],[("channel map and channel locks",C+"fcrpaymentmgr")])
p("N01","Peer connections deliver each message whole, in order and unaltered",
 "However the byte stream between two nodes is cut into segments or several messages run together, each message a node sends is received by the other exactly once, in order and unaltered, up to any size. A truncated or undecodable message, one shorter than its announced length, a closed connection or a stalled peer yields an error within the time allowed and never a wrong, merged or partial message, and an announced length costs nothing until the bytes arrive.",
 ["inputs","schedules","fault_sequences"],"all message sequences and sizes, all segmentations of the stream, truncations, pauses and garbage",
 "Tests send one small message over one connection written in one piece.",
 [C+"fcrp2pserver/fcrp2p_utils.go"],[("length-prefixed framing",C+"fcrp2pserver")])
p("N02","Each peer request reaches its handler once and gets its own answer",
 "A request to another node by id reaches the handler registered for that node, interface and message type exactly once, and the caller gets the answer to its own request even when many callers use the same peer concurrently. A request of an unknown type is answered with an invalid-message response; an unknown, unreachable, stalled or failing peer gives the caller an error, and afterwards requests to it and to other peers work again as soon as it is back. No input from a peer stops the server from serving other peers.",
 ["schedules","fault_sequences","histories"],"all histories and interleavings of requests between nodes, peer restarts, handler failures and hostile connections",
 "Tests exercise one request between two servers; pooled connections, failures and concurrency are not exercised.",
 [C+"fcrp2pserver"],[("server accept loop and dispatch, connection pools, request functions",C+"fcrp2pserver")])
p("N03","REST endpoints route each message to its handler and report errors as errors",
 "A well-formed protocol message posted to an endpoint is given unchanged to the handler registered for that endpoint and message type, and to no other; anything else (undecodable body, unregistered type) is answered with an error status and reaches no handler. A client sending a message gets exactly the handler's reply, or an error when the endpoint is unreachable, answers with an error status or with something that is not a message.",
 ["inputs","configurations"],"all assignments of handlers to endpoints and types, all messages and malformed bodies, all reply statuses",
 "Tests register one handler and post one message.",
 [C+"fcrrestserver",C+"request"],[("request router",C+"fcrrestserver"),("SendMessage / SendJSON / GetJSON",C+"request")])
p("G01","Client reputation follows the published score table within its limits",
 "Over any history of events, a client's reputation equals the initial score plus the table's change for each event, limited after every event to the allowed range; events of one client never affect another. A client is known exactly when it has been established or assigned a score, an administratively assigned score is what is read next, and an administrator learns truthfully whether a client is known.",
 ["histories","inputs"],"all histories of reputation events and administrative settings over several clients, including at the limits",
 "Tests apply each event once to a fresh client; saturation and interleaving of clients need histories.",
 ["gateway/internal/reputation","gateway/internal/api/adminapi"],[("score changes and clamping","gateway/internal/reputation"),("get/set reputation handlers","gateway/internal/api/adminapi")])
p("G02","A gateway answers discovery truthfully and only sells paid answers",
 "A client's standard discovery request that has not expired gets a response signed by the gateway for the same piece and nonce, listing (each once) exactly the unexpired offers the gateway holds for that piece: as sub-offers with valid proofs, or in the paid protocol as digests. In the paid protocol digests are returned only if the enclosed payment is valid and at least the search price; otherwise the response demands payment and names the channel. An expired request gets no answer, a malformed one an error, and an establishment challenge is returned signed with the gateway's identity.",
 ["histories","inputs","configurations"],"all offer stores, requests, nonces, deadlines, payments, prices and malformed requests",
 "There are no gateway handler tests in the stable suite.",
 ["gateway/internal/api/clientapi"],[("establishment, standard discover v1 and v2 handlers","gateway/internal/api/clientapi")])
p("G03","A gateway delivers exactly the offers paid for, at its configured price",
 "When a client or a peer gateway requests offers by (distinct) digests with a valid payment of at least the offer price times the number of digests, the signed answer carries, for each requested digest of an unexpired offer the gateway holds for that piece, its sub-offer with a valid proof, says truthfully whether any was found and never contains an empty offer; unknown digests do no harm. With less or no payment no offers are given: the answer demands payment, or the request is refused. The price charged does not change from request to request.",
 ["histories","inputs","configurations"],"all histories of offer requests by clients and peers with known and unknown digests, payments and prices",
 "There are no gateway handler tests in the stable suite, and price drift shows only over several requests.",
 ["gateway/internal/api/clientapi","gateway/internal/api/gatewayapi"],[("standard discover offer handler","gateway/internal/api/clientapi"),("DHT discover offer handler","gateway/internal/api/gatewayapi")])
p("G04","A gateway stores and acknowledges only authentic publications",
 "A gateway stores the offers of a publication if and only if the message is signed by a registered provider and every offer in it is signed by that provider; a rejected publication leaves the store unchanged and is not acknowledged. The acknowledgement is signed by the gateway and binds the publication: for single-piece offers it carries the same nonce and the gateway's signature over the request, for group offers the digest of the stored offer.",
 ["inputs","histories"],"all publications with any mixture of valid, foreign, altered and unsigned messages and offers, from registered and unregistered providers",
 "There are no gateway handler tests in the stable suite; forged and mixed publications are never sent.",
 ["gateway/internal/api/providerapi"],[("publish group and DHT offer handlers","gateway/internal/api/providerapi")])
p("G05","Peer DHT queries are answered truthfully, if authentic and if paid",
 "A peer gateway's DHT query is answered only when it is signed by the registered gateway it claims to come from and has not expired; the signed answer names the same piece and nonce and lists exactly the unexpired offers held for that piece, each once. In the paid protocol the digests are included only if the enclosed payment is valid and covers the search price; a valid but short payment is answered with a demand for payment, an invalid one with a refusal or a demand.",
 ["inputs","histories","configurations"],"all peer queries with valid, forged, expired or altered requests, any offer store, payments and prices",
 "There are no gateway handler tests in the stable suite.",
 ["gateway/internal/api/gatewayapi"],[("DHT discover handlers v1 and v2","gateway/internal/api/gatewayapi")])
p("G06","A DHT search on a client's behalf asks the nearest gateways and reports honestly",
 "A gateway asked to search the DHT queries the requested number (at most 16, or all there are) of registered gateways nearest to the piece, each once and never itself, and its signed response for the client's nonce accounts for each of them exactly once: as contacted, with that gateway's own authentic answer, or as uncontactable. Answers that fail verification are not passed on as contacted. In the paid protocol, and when offers are bought from other gateways on the client's behalf, nothing is asked and no peer is paid unless the client's payment covers the whole request, and each peer asked is paid exactly its price with a voucher that is good; unknown gateways are skipped.",
 ["inputs","histories","fault_sequences","configurations"],"all sets of peers, pieces, counts, peer failures and forged answers, payments and prices",
 "There are no gateway handler tests in the stable suite; the property needs several peers and failures.",
 ["gateway/internal/api/clientapi","gateway/internal/api/gatewayapi",C+"fcrregistermgr"],[("DHT discover and DHT discover offer handlers","gateway/internal/api/clientapi"),("DHT requesters","gateway/internal/api/gatewayapi")])
p("V01","Offers are published to the right gateways; only genuine acks are recorded",
 "Publishing single-piece offers sends each offer, correctly signed with the requested terms, to every one of the registered gateways nearest to its piece, and publishing a group offer of several pieces sends the one signed offer to every registered gateway; gateways that fail or answer falsely do not keep the others from getting theirs, and no gateway gets an offer that is not for it or was not asked for. An acknowledgement is recorded exactly if it is signed by that gateway and matches the publication sent. Listing the published offers returns the offers genuinely acknowledged by the gateways asked about, or by any gateway if none is named, and no others.",
 ["histories","inputs","fault_sequences"],"all histories of publications with any pieces, prices, gateways, and gateways answering wrongly, late or not at all",
 "There are no provider tests in the stable suite.",
 ["provider/internal/api/adminapi","provider/internal/api/gatewayapi","provider/internal/offers"],[("publish handlers","provider/internal/api/adminapi"),("publish requesters","provider/internal/api/gatewayapi")])
p("V02","A provider hands a joining gateway every offer in its range",
 "A registered gateway's authentic request for the single-piece offers in a clockwise piece range is answered with signed publications that together contain each unexpired single-piece offer in the range exactly once, up to the protocol's maximum, and the gateway's acknowledgements for them are recorded. A forged request is refused, a forged acknowledgement is not recorded, and no order of publications, requests and acknowledgements makes the provider fail or stop serving.",
 ["histories","inputs"],"all offer stores and ranges (including wrapping ones), numbers of offers, repeated requests, forged requests and acknowledgements",
 "There are no provider tests in the stable suite.",
 ["provider/internal/api/gatewayapi"],[("list DHT offer handler","provider/internal/api/gatewayapi")])
p("V03","A provider's evidence and group-offer subscriptions reflect what happened",
 "A client asking a provider whether a gateway acknowledged a piece is told found exactly when that acknowledgement was recorded, with the original publication and acknowledgement intact and verifiable, and not found otherwise. After a gateway's authentic notification that it takes, or no longer takes, group offers, the provider's set of gateways receiving group offers contains it exactly if it last said yes; a forged notification changes nothing.",
 ["histories","inputs"],"all histories of publications, queries and notifications from several gateways",
 "There are no provider tests in the stable suite.",
 ["provider/internal/api/clientapi","provider/internal/api/gatewayapi"],[("DHT offer ack handler","provider/internal/api/clientapi"),("group offer support notification handler","provider/internal/api/gatewayapi")])
p("C01","A client returns only offers that are genuinely the provider's for that piece",
 "Whatever a gateway answers, every offer the client library returns from standard or DHT discovery is signed by the registered provider it names and carries a valid proof for the requested piece, was delivered by an authenticated response to this request, and each valid offer delivered is returned under the gateway that supplied it. The paid searches return no more offers than asked for and request from each gateway only the digests that gateway listed. Answers that are forged, malformed, for another piece or nonce, or that name unknown providers or gateways never cause an offer to be returned or the client to crash.",
 ["inputs","histories","fault_sequences"],"all gateway behaviours: any mixture of valid, forged, foreign, altered and malformed offers and responses over any number of gateways",
 "There are no client tests in the stable suite.",
 ["client/pkg/fcrclient/filecoin_retrieval_client.go","client/pkg/api/clientapi"],[("FindOffers* verification loops","client/pkg/fcrclient"),("Request* response checks","client/pkg/api/clientapi")])
p("C02","The client's gateway sets and its spending follow the rules",
 "Over any history of adding and removing gateways, the usable set holds exactly the validly registered gateways added and not removed, the active set is a subset of it holding those whose signed answer to a fresh random challenge was genuine, and the counts returned are the true changes. Discovery is attempted only through active gateways. Every request of a paid search carries a payment to that gateway's registered wallet that raises the total promised to it by exactly the search price (times the number of gateways to ask, for a DHT search) or the offer price times the offers requested. Money moves into the one channel per wallet only in steps of the configured top-up, when the balance does not cover the payment or the gateway says that payment is required, and no more than twice per payment; if a payment is not possible nothing is requested.",
 ["histories","inputs","fault_sequences"],"all histories of add, remove, activate, discover over gateways that are valid, invalid, unregistered, impersonated or failing",
 "There are no client tests in the stable suite.",
 ["client/pkg/fcrclient/filecoin_retrieval_client.go","client/pkg/fcrclient/register_validation.go","client/pkg/api/clientapi"],[("gateway set operations and establishment","client/pkg/fcrclient"),("payments in paid discovery","client/pkg/fcrclient")])
p("C03","A publication acknowledgement convinces a client only if it is genuine",
 "The client reports that a gateway acknowledged a piece exactly when the provider's authenticated answer contains a publication signed by that provider that includes an offer for the piece, and an acknowledgement signed by that gateway whose signature is over that very publication. Any missing, forged, altered or mismatched part yields an error or a negative answer, never a positive one and never a crash.",
 ["inputs"],"all provider answers: genuine evidence and every single alteration, substitution or omission of its parts",
 "There are no client tests in the stable suite.",
 ["client/pkg/fcrclient/filecoin_retrieval_client.go","client/pkg/api/clientapi/dht_offer_ack_requester.go"],[("FindDHTOfferAck","client/pkg/fcrclient")])
p("A01","Administration takes effect as asked, and only genuine replies count",
 "Initialising a gateway or provider over its admin interface gives it exactly the identity, signing key, key version and (in the second form) payment wallet sent, so that it signs and identifies as such from then on; a refused initialisation changes nothing, and a node that was never initialised refuses every other request, of clients, peers and administrators, without crashing. Announcing group-offer support notifies the listed registered providers in the gateway's name. A forced refresh that is answered has read the register: from then on the node goes by what the register lists. The admin libraries report success exactly when the node's reply is authentic, of the expected kind and affirmative, and report errors otherwise; values read through them (reputation, published offers) are those the node holds.",
 ["histories","inputs","fault_sequences"],"all keys, ids, versions, replies (genuine, forged, negative, malformed) and sequences of administrative calls",
 "Only one admin library call has a test, with one fixed reply.",
 ["gateway/internal/api/adminapi","provider/internal/api/adminapi","gateway-admin/pkg","provider-admin/pkg"],[("initialise key handlers","gateway/internal/api/adminapi, provider/internal/api/adminapi"),("admin requesters","gateway-admin/pkg/api/adminapi, provider-admin/pkg/api/adminapi")])
p("E01","What is published can be found, bought and proven end to end",
 "For any offers a provider publishes through running nodes, a client with an established gateway finds by discovery exactly the matching unexpired offers, each verifying against the provider's registered key and the requested piece, the digests and offers bought in the paid protocol agree with the free one, and the acknowledgement evidence is accepted for exactly the gateways that got the piece. A gateway joining later offers what was published nearest to it. Paid searches are answered as paid, and the client's vouchers and channels move exactly the price of what was asked for. While offers are being published, searches find at least what was acknowledged before and nothing that was not published.",
 ["histories","inputs"],"all sets of published offers (single and group, any terms), pieces queried and interleavings of publishing and querying across client, gateway, provider, register and a simulated chain",
 "The only end-to-end tests need containers and a chain node and do not run here.",
 ["client","gateway","provider","register","common"],[("client to gateway to provider flow","client/pkg/fcrclient, gateway/internal/api, provider/internal/api")])

p("F01","Nodes and clients run with exactly the configuration they are given",
 "The value given for a setting, in the environment, the .env file (which the environment overrides) or by --ip (which overrides the variable IP, which overrides 127.0.0.1), reaches exactly the gateway's or provider's setting it is named for, and no other. Prices and the top-up amount are kept exactly, of any size, with or without grouping underscores; absent, malformed or negative ones stand for the defaults (10^15, top-up 10^17), never for a part of the text. Refresh interval and timeouts that are absent, malformed or not positive stand for 5 s, 100 ms and 5 s. A running node looks at the register at the configured interval. Settings the client and administration libraries build hold what was last given for each, else the default; builds do not share or affect one another.",
 ["inputs","histories"],"all environments, command lines and .env files for gateways and providers, and all call histories of the settings builders of the client and administration libraries",
 "Unit tests read one example file; they do not vary values, and none looks at what a running node does with them.",
 ["gateway/config/config.go","provider/config/config.go","gateway/cmd/gateway/main.go","provider/cmd/provider/main.go","client/pkg/fcrclient","gateway-admin/pkg/fcrgatewayadmin","provider-admin/pkg/fcrprovideradmin"],
 [("viper configuration and its mapping to settings","gateway/config, provider/config"),("settings builders","client/pkg/fcrclient/client_settings.go, gateway-admin/pkg/fcrgatewayadmin, provider-admin/pkg/fcrprovideradmin")])

p("X01","No message from the network stops a node",
 "Whatever clients, gateways, providers, administrators or the register send to a running gateway or provider (random bytes, frames with false lengths, messages of any kind with fields missing, altered, of another type or extreme, signed by a registered node or by nobody, requests as well as answers to what the node itself asks, and any register contents), the process keeps running and no request handler crashes. Afterwards honest requests at every access point are answered as they would have been: the offers held are found, publications are taken and acknowledged, paid searches are answered, evidence given before is still given. (Initialisation requests to an administrator's port are excepted: they take a node over by design.)",
 ["inputs","histories","fault_sequences"],"all messages, byte sequences and answers, in any order and number, at all access points of gateways and providers",
 "Unit tests call handlers with a few well-formed messages, and none of them drives a running node.",
 ["gateway/internal/api","provider/internal/api","common/pkg/fcrmessages","common/pkg/fcrp2pserver","common/pkg/fcrrestserver","common/pkg/fcrregistermgr"],
 [("request handlers and requesters","gateway/internal/api, provider/internal/api"),("message decoding","common/pkg/fcrmessages"),("transport","common/pkg/fcrp2pserver, common/pkg/fcrrestserver"),("register refresh","common/pkg/fcrregistermgr")])

p("L01","A node's log holds exactly what was logged at its level, and fatal errors stop it",
 "Every message logged at or above the configured level is in the configured place (standard output, or the log file and its rotated, possibly compressed predecessors) exactly once, whole, on a JSON line of its own with its level, the service's name and a true time in the configured format, in the order each thread logged it; nothing below the level is there. Levels are understood in upper or lower case, NONE means no logging, and INFO is used when the level is missing or unknown; setting an unknown level later changes nothing, and setting a known one or initialising again takes effect at once. Files keep to the configured size and only backups beyond the configured number are dropped. A log that cannot be opened never stops a node. Fatal and Panic end the process, respectively panic with the message, whatever the level is.",
 ["inputs","histories","schedules"],"all log configurations, all histories of messages, level changes and initialisations, from any number of threads, and running gateways and providers",
 "Unit tests print the type of the logger; none reads a log.",
 ["common/pkg/logging/logging.go","gateway/cmd/gateway/main.go","provider/cmd/provider/main.go"],
 [("initialisation and levels","common/pkg/logging/logging.go")])

p("K03","A node's private keys and tokens stay with it",
 "The private signing key, the wallet's private key and the token for the chain that a gateway or provider was given by its administrator, in successful and in failing initialisations, appear in nothing it emits, in any usual form (raw, hexadecimal, base64, decimal, or inside an encoded message): not in its log at any level, not in files it leaves, not in answers to anyone, not in messages to other nodes, to the register, or in the contents of requests to the chain, whatever requests, honest or hostile, it is sent. (The token authenticates its requests to the chain, in their header only.)",
 ["inputs","histories","fault_sequences"],"all initialisations, good or bad, and all histories of honest and hostile requests at running gateways and providers",
 "Unit tests look at the answers they expect; none searches logs or traffic for keys.",
 ["gateway/internal/api","provider/internal/api","common/pkg/fcrmessages","common/pkg/fcrpaymentmgr","common/pkg/fcrrestserver","common/pkg/fcrp2pserver","common/pkg/logging"],
 [("initialisation handlers","gateway/internal/api/adminapi, provider/internal/api/adminapi"),("payment manager","common/pkg/fcrpaymentmgr"),("what is logged","all packages of gateways and providers")])

out=os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),"properties.jsonl")
with open(out,"w") as f:
    for x in P: f.write(json.dumps(x,ensure_ascii=False)+"\n")
print(len(P))
