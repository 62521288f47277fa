#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the long texts stay readable)."""
import json, os
P = []
def prop(id, title, statement, over, q, why, files, mech, state=(), observe=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=q), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                     state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
                     observe_at=list(observe), hook_needed=hook)))
CO="cmd/coordinator/"; SE="cmd/server/"; CL="cmd/client/"
H="exported wrappers of the unexported phase functions (build tag verif)"
NOPROTO="There is no test of the coordinator, server or client at all; "

prop("C01","Hidden reputations equal starting credit plus accepted votes, every round",
 "At the start of every round, the commitment published for each registered client opens, under the published generators and with the randomness that client has accumulated, to the starting credit of 5 plus the sum of all votes the coordinator accepted in earlier rounds on bridges that client supplied; the reputation the client itself reports is the same number. The coordinator and every server hold the same published table and generators. No other client's or placeholder's hidden value changes.",
 ["histories","inputs","configurations"],"every number of servers and clients, every sequence of rounds, joins, posts, requests and votes",
 NOPROTO+"the Pedersen tests only add two commitments once. The guarantee spans three programs, two directions of re-randomisation and any number of rounds.",
 [CO+"CoordinatorLauncher.go",CO+"CoordinatorHandler.go",SE+"AnonServerHandler.go",CL+"ClientHandler.go","primitive/pedersen/PedersenCommitment.go"],
 [("rDiff broadcast and commitment addition at round end",CO+"CoordinatorLauncher.go roundEnd"),("re-randomisation of table and generators by the same exponent",SE+"AnonServerHandler.go handleAnnouncement, handleRoundEnd"),("client-side accumulation of randomness and reputation",CL+"ClientHandler.go handleBroadcastPedersenRDiff, handleRoundEnd")],
 [("reputation table","pseudonym -> commitment for the current round",CO+"Coordinator.go EndingKeyMap/EndingCommMap"),("client randomness","opening of the client's commitment",CL+"DissentClient.go R")],
 ["published table and generators at each announcement","client-reported reputation"],H)

prop("C02","Each participant is in every round's table once, under its own pseudonym",
 "Every round's published table contains exactly one entry per participant: each client whose registration completed before the previous round closed finds there the pseudonym it derives from its private key and the round's published base, and each placeholder entry appears once too. No entry is lost, duplicated, or replaced by another key, across any number of rounds and joins. Registering a public key that is registered already, or that is a placeholder's, changes nothing. At the end of a round every pseudonym is mapped back to exactly the long-term public key it came from.",
 ["histories","configurations"],"every number of servers, clients and placeholders, every sequence of rounds and joins",
 NOPROTO+"keys are exponentiated by every server, shuffled, and mapped back by per-server tables across rounds; no single-call test reaches this.",
 [SE+"AnonServerHandler.go",CO+"CoordinatorHandler.go",CO+"CoordinatorLauncher.go"],
 [("per-round key map and round key",SE+"AnonServerHandler.go handleAnnouncement, handleRoundEnd, handleClientRegisterServerSide"),("new-client buffer",CO+"CoordinatorLauncher.go roundEnd, clearBuffer")],
 [("key map","encrypted key -> previous key at one server",SE+"AnonServer.go KeyMap")],
 ["published table","coordinator's long-term key list after round end"],H)

prop("C03","Rounds are unlinkable: pseudonyms, commitments and order are fresh",
 "In every round each server applies a newly drawn secret to the pseudonyms and to the commitments and outputs them in a newly drawn random order, in both directions of the chain. No pseudonym, published base, commitment or commitment generator is ever repeated from an earlier round or hop, the randomness of the commitments the coordinator makes (at registrations and at round ends) is drawn anew each time, and the output order of a hop is not determined by its input order.",
 ["histories","configurations","inputs"],"every table size from two up, every number of servers and rounds, every draw of the servers' randomness",
 "The shuffle test does not compile and nothing tests the servers; freshness and randomness of order are statements about many runs.",
 [SE+"AnonServerHandler.go","util/shuffle/pair.go"],
 [("round key reset",SE+"AnonServerHandler.go handleRoundEnd"),("random exponent per hop",SE+"AnonServerHandler.go"),("random permutation","util/shuffle/pair.go Shuffle")],
 [("round key","secret exponent of one server for one round",SE+"AnonServer.go Roundkey")],
 ["messages between servers","published tables"],H)

prop("C04","No request is granted beyond the requester's reputation",
 "A request for more bridges than the requester's committed reputation is refused by the coordinator and, independently, by every server, whatever proof values the requester supplies: no bridge is assigned and no assignment is signed. This covers made-up proofs, values that wrap around the group order, proofs whose commitments are chosen after the challenge, and proofs replayed from another client, request or round.",
 ["inputs","histories"],"every reputation, indicator above it, and proof produced by a requester who knows its own secrets",
 "The tests only check that honest proofs of 0, 42 and 100 verify; no test presents a dishonest proof.",
 ["cmd/bridge/bridge.go","primitive/fujiokam/FujiOkamCommitment.go","primitive/pedersen_fujiokam/equality.go",CO+"CoordinatorHandler.go",SE+"AnonServerHandler.go"],
 [("indicator verification","cmd/bridge/bridge.go VerifyInd"),("server-side re-verification",SE+"AnonServerHandler.go handleSignAssignments")],
 [],["assignments created","signatures sent by servers"],H)

prop("C05","Every honest request within the reputation is granted in full",
 "A registered client with reputation r that asks for k bridges, 0 < k <= r, is assigned exactly min(k, number of unassigned bridges) of them, and the client receives each of them with a complete set of signatures. This holds for every reputation reached by voting, for every server count, and in every round.",
 ["inputs","histories","configurations"],"every non-negative reputation a history reaches, every indicator up to it, every pool of posted bridges",
 "The proof tests use three fixed values and never the composition used by a request; the request path has no test.",
 [CL+"ClientLauncher.go",CO+"CoordinatorHandler.go",SE+"AnonServerHandler.go","cmd/bridge/bridge.go"],
 [("client proof generation",CL+"ClientLauncher.go requestBridges"),("assignment",CO+"Coordinator.go AssignBridges")],
 [],["assignments recorded by the client"],H)

prop("C06","A posted bridge goes to at most one requester and credits its provider",
 "Within a round every posted bridge is assigned at most once, only bridges posted in that round are assigned, and each assignment names the requester that asked for it, the exact posted address and the pseudonym of the client that posted it. One request never yields more assignments than it asked for, and bridges of earlier rounds are never handed out.",
 ["histories","schedules"],"every sequence of posts, requests and rounds, every delivery order",
 NOPROTO+"uniqueness is a statement about whole histories of posts and requests.",
 [CO+"Coordinator.go",CO+"CoordinatorHandler.go",CO+"CoordinatorLauncher.go"],
 [("used mark",CO+"Coordinator.go GetBridge"),("round clearing",CO+"Coordinator.go ClearBridges")],
 [("bridge pool","address -> provider pseudonym and used mark",CO+"Coordinator.go Bridges")],
 ["assignments sent to servers and clients"],H)

prop("C07","An assignment is released only with every node's valid signature",
 "A requester is sent an assignment only after the coordinator holds a valid signature on exactly that assignment from each server and from itself, and the delivered list holds exactly those signatures, one per server in chain order and the coordinator's last. Signatures that are invalid, duplicated, from a node that is not a server, for a different assignment, or left over from an earlier round never count; the release is addressed to the client that made the request. A client records only a delivery that the coordinator signed.",
 ["schedules","fault_sequences","inputs"],"every order, duplication, loss and corruption of the servers' signature messages",
 NOPROTO+"the property quantifies over the arrival orders and faults of several servers' replies.",
 [CO+"Coordinator.go",CO+"CoordinatorHandler.go",SE+"AnonServerHandler.go",CL+"ClientHandler.go"],
 [("signature log and count",CO+"Coordinator.go AddAssignmentSignature, FinishCollectingAssignmentSignatures"),("signature collection",CO+"CoordinatorHandler.go handleGotSignatures")],
 [("assignment signature log","address -> signatures collected so far",CO+"Coordinator.go AssignmentSignaturesLog")],
 ["messages delivered to clients"],H)

prop("C08","A vote counts once, for the right provider, only if fully valid",
 "A vote changes the vote tally of the round only if it carries the voter's valid signature under the voter's current pseudonym, the voter is the requester named in the assignment, the assignment carries the valid signature of every server and of the coordinator, the feedback is +1 or -1, and the provider is in the current table. It then adds exactly the feedback to exactly that provider, at most once per assignment; any other vote leaves every tally unchanged and harms nothing.",
 ["histories","inputs"],"every sequence of genuine, repeated, altered, foreign and forged votes over any assignments",
 NOPROTO+"once-only counting and rejection are statements over all histories and all forgeries.",
 [CO+"CoordinatorHandler.go","cmd/bridge/bridge.go",CL+"ClientLauncher.go"],
 [("vote verification",CO+"CoordinatorHandler.go handleVote"),("signed vote body","cmd/bridge/bridge.go MessageOfVote")],
 [("vote tally","pseudonym -> sum of feedback this round",CO+"Coordinator.go ReputationDiffMap")],
 ["vote tally","reputation in the next round"],H)

prop("C09","Altered or impersonated client messages have no effect",
 "A post, bridge request or vote takes effect only if it was signed, in exactly the form received, with the private key behind the pseudonym it names, in the current round. Changing any signed field, swapping the pseudonym, reusing the signature on another message, or replaying it in a later round leaves bridges, assignments and tallies unchanged.",
 ["inputs","histories"],"every honest message and every change of one or more of its fields to other well-formed values",
 NOPROTO+"the property ranges over all alterations of all messages.",
 ["cmd/bridge/bridge.go",CO+"CoordinatorHandler.go","util/Util.go"],
 [("signed message bodies","cmd/bridge/bridge.go MessageOfRequestBridges, MessageOfPostBridge, MessageOfVote"),("signature check",CO+"CoordinatorHandler.go")],
 [],["bridge pool, assignments and tallies at the coordinator"],H)

prop("C10","A signature verifies exactly when the named key signed that message",
 "A signature made over a message with a private key and a base verifies under the matching public key, message and base, for every message including the empty one. It does not verify for any other message, public key or base, after changing or removing any byte of the signature, and cannot be produced without the private key; verification reports malformed signatures as an error.",
 ["inputs"],"every key, base, message and alteration, including the constructions a forger without the key can compute",
 "Signatures have no test.",
 ["util/Util.go"],[("sign and verify","util/Util.go ElGamalSign, ElGamalVerify, hashElGamal")],[],["verification result"])

prop("C11","No two signatures share a nonce and none reveals the private key",
 "Every signature that the coordinator, a server or a client emits uses a nonce that is unpredictable and different from the nonce of every other signature. From any number of emitted signatures and public information, neither a fixed nonce guess nor the equation for a repeated nonce yields the signer's private key.",
 ["histories","inputs"],"every history of posts, requests, signed assignments, releases and votes",
 "Nonce reuse shows only in the relation between several signatures; no test looks at one.",
 [CO+"Coordinator.go",SE+"AnonServerHandler.go",CL+"ClientLauncher.go","util/Util.go"],
 [("nonce source",CO+"Coordinator.go SignMessage; "+SE+"AnonServerHandler.go handleSignAssignments; "+CL+"ClientLauncher.go postBridge, requestBridges, sendVote")],[],["signatures on the wire"],H)

prop("C12","Reputation commitments open, add, subtract and re-randomise correctly",
 "A commitment made to a value opens with the value and randomness it was made with and with no other value or randomness; the sum (difference) of two commitments opens to the sum (difference) of values and randomness. Raising a commitment and both generators to the same exponent preserves its opening, and two commitments to the same value differ. Operations do not modify their arguments.",
 ["inputs"],"every pair of generators, every value (negative, zero and large included), every randomness",
 "The tests open one commitment, one sum and one difference of fixed small values and never a wrong opening.",
 ["primitive/pedersen/PedersenCommitment.go"],[("commit, verify, add, subtract, randomise","primitive/pedersen/PedersenCommitment.go")],[],["opening check"])

prop("C13","The non-negativity argument accepts all and only non-negative values",
 "For every non-negative value a reputation can take, an honestly made argument about its integer commitment verifies, also after being encoded and decoded. No argument verifies for a commitment to a negative number, to a value outside the range of reputations (such as a negative number taken modulo the group order), for another commitment, or after any alteration, whatever commitments and responses the prover picks.",
 ["inputs"],"every value, every randomness, every alteration and the known forgery strategies",
 "The tests run the honest prover on 0 and 100 only; a verifier that always returned true would pass.",
 ["primitive/fujiokam/FujiOkamCommitment.go","primitive/fujiokam/point.go","util/Util.go"],
 [("three-square decomposition and argument","primitive/fujiokam/FujiOkamCommitment.go decomposeThreeSquare, ProveNonneg, VerifyNonneg")],[],["verification result"])

prop("C14","The equality argument accepts only commitments to the same value",
 "For every value, an honestly made argument that a group commitment and an integer commitment hide the same value verifies, also after being encoded and decoded. No argument verifies when the two hidden values differ, for other commitments than those it was made for, after any alteration (other than adding multiples of the group order to a number the group reduces), or for an integer commitment that was computed from the argument instead of before it.",
 ["inputs"],"every pair of values, randomness, generators, alteration and the known forgery strategies",
 "The one test runs the honest prover on one value and never an unequal pair.",
 ["primitive/pedersen_fujiokam/equality.go","util/Util.go"],[("equality argument","primitive/pedersen_fujiokam/equality.go ProveEqual, VerifyEqual")],[],["verification result"])

prop("C15","Commitment parameters are provably honest and their trapdoor stays secret",
 "The integer-commitment modulus is the product of two distinct 512-bit safe primes and all generators lie in the subgroup of squares; the honesty proof the coordinator gives each client verifies for them. A generator outside the subgroup generated by the base, or any altered answer, is rejected except with negligible probability. The coordinator never answers two challenges about the same proof values, so no clients together learn the secret exponents.",
 ["inputs","histories"],"every parameter set, every challenge, every sequence of registrations and repeated or foreign challenges",
 "The tests check honest answers once and never a dishonest generator or a second challenge.",
 ["primitive/fujiokam/FujiOkamCommitment.go",CO+"CoordinatorHandler.go",CO+"CoordinatorLauncher.go",CL+"ClientHandler.go"],
 [("parameter generation","primitive/fujiokam/FujiOkamCommitment.go CreateBaseFromSuite"),("honesty proof","primitive/fujiokam/FujiOkamCommitment.go GenerateAllGnHonestyProof..CheckAllGnHonesty"),("challenge handling",CO+"CoordinatorHandler.go handleGnHonestyChallenge")],[],["answers sent to clients"],H)

prop("C16","Ring signatures verify for members only and link one signer's signatures",
 "A ring signature made by any member at any position of a ring of any size verifies for that message and ring, also after being encoded and decoded, and two signatures by the same member on the same message and ring are linkable while signatures by different members are not. No signature verifies for another message or ring, after any alteration (other than adding multiples of the group order to one of its numbers) or extension, or with a tag by which a member could evade linking; nothing in it tells which member signed.",
 ["inputs"],"every ring size, position, message and key; every alteration of a signature",
 "The tests sign once with a ring of two and signer 0 and never expect a rejection.",
 ["primitive/lrs/LinkableRingSignature.go","primitive/lrs/Encoding.go"],[("sign, verify, link","primitive/lrs/LinkableRingSignature.go SignHelper, VerifyHelper, Linkable")],[],["verification result","linking result"])

prop("C17","A shuffle proof verifies exactly for genuine re-encrypting permutations",
 "The shuffle outputs a re-encryption of a permutation of its input pairs, loses and invents nothing, and comes with a proof that verifies, for every size from two up, repeated elements included; the same holds for the two-element shuffle. No proof verifies for outputs with a replaced, dropped, duplicated or altered element, for other inputs, keys or generators, or after any alteration of the bytes of the proof (bytes appended after its end are not part of it), including proofs made by a prover who deviates from the protocol or picks the outputs last.",
 ["inputs"],"every input list, key, permutation and alteration, and the known dishonest-prover strategies",
 "The shuffle test file does not compile, so nothing tests the shuffle; it would only run honest proofs.",
 ["util/shuffle/pair.go","util/shuffle/simple.go","util/shuffle/biffle.go"],[("pair shuffle","util/shuffle/pair.go Shuffle, Prove, Verify"),("simple shuffle","util/shuffle/simple.go"),("two-element shuffle","util/shuffle/biffle.go")],[],["decryption of the output","verification result"])

prop("C18","A server never passes on a table whose shuffle proof is missing or wrong",
 "When a server receives a table of two or more entries from the neighbouring server, it processes and forwards it only if the accompanying proof shows that the shuffled list is a permutation of the previous list under the sender's stated key. If the proof is absent, does not verify, or belongs to different lists or another key, the server forwards nothing, in both directions of the chain; honest tables of every size are forwarded.",
 ["inputs","fault_sequences"],"every table size and every alteration of the proof, the lists and the key, in both directions",
 NOPROTO+"and the property is about refusing every wrong proof.",
 [SE+"AnonServerHandler.go","util/shuffle/pair.go"],[("shuffle verification before processing",SE+"AnonServerHandler.go verifyNeffShuffle")],[],["messages the server sends"],H)

prop("C19","Servers form one chain and all nodes use the same joint parameters",
 "However many servers register, and in whatever order their messages arrive, the forward links visit every server once in registration order from the coordinator back to it, the backward links are the exact reverse, and the coordinator keeps each server's own key. All nodes end up with the coordinator's integer-commitment parameters and with one common second commitment generator to which every server contributed its own secret exponent. A server that registers after the servers were configured is not added and changes nothing.",
 ["schedules","configurations"],"every number of servers and every delivery order of the registration messages",
 NOPROTO+"registration order and message timing are schedule properties.",
 [CO+"CoordinatorHandler.go",CO+"Coordinator.go",SE+"AnonServerHandler.go",CO+"CoordinatorLauncher.go"],
 [("chain links",CO+"CoordinatorHandler.go handleServerRegister; "+SE+"AnonServerHandler.go handleUpdateNextHop, handleServerRegisterReply"),("joint generator",CO+"CoordinatorHandler.go handleUpdatePedersenH, CoordinatorLauncher.go configCommParams")],
 [("chain","ordered list of servers",CO+"Coordinator.go ServerList")],["links and parameters held by each node"],H)

prop("C20","Everything put on the wire or in the config is read back unchanged",
 "Every value a node encodes - integers of any sign and size, group elements, secrets, lists of them of any length including empty, bit lists, byte lists, proofs, signatures, assignments, and whole events with their parameters and sender address - decodes to an equal value, and an event sent over a connection is received with the same type, parameters and sender. Every key=value line of the configuration files is reported under its key, for values without '='.",
 ["inputs"],"every value of every encodable type, every list length, every event, every well-formed configuration",
 "The tests round-trip one random bit list, one integer list, one integer and one assignment pair.",
 ["util/Util.go","cmd/bridge/bridge.go","primitive/lrs/Encoding.go","primitive/fujiokam/point.go","util/ConfigReader.go","proto/Event.go"],
 [("encoders and decoders","util/Util.go, cmd/bridge/bridge.go, primitive/lrs/Encoding.go"),("events","util/Util.go SendEvent, DecodeEvent"),("configuration","util/ConfigReader.go")],[],["decoded values"])

prop("C21","Messages that cross a round boundary neither corrupt nor get lost",
 "Posts, requests, votes and signatures that reach the coordinator after a round was closed and before the next one is announced change nothing: no tally, bridge or assignment of either round. A client registration that arrives at any time after the servers are configured - before the first announcement, between rounds, or still travelling along the servers when the round is closed - completes, and that client is in a following round's table with its starting credit; no node crashes.",
 ["schedules","histories"],"every interleaving of client messages and registrations with the closing and opening of rounds",
 NOPROTO+"the property is about message timing against phase changes.",
 [CO+"CoordinatorHandler.go",CO+"CoordinatorLauncher.go",CL+"ClientHandler.go"],
 [("phase status",CO+"CoordinatorStatus.go, CoordinatorLauncher.go roundEnd, CoordinatorHandler.go handleAnnouncement"),("new-client buffer",CO+"Coordinator.go NewClientsBuffer")],
 [("phase","what the coordinator currently accepts",CO+"Coordinator.go Status")],["tables, tallies and bridge pool"],H)

prop("C22","Decryption with the matching private key undoes encryption, with no other",
 "Every group element encrypted to a public key is recovered by the matching private key and by no other key. Encrypting the same element twice gives different ciphertexts, and the product of two ciphertexts decrypts to the product of the elements.",
 ["inputs"],"every key pair and every group element",
 "Encryption has no test.",
 ["util/Util.go"],[("encrypt and decrypt","util/Util.go ElGamalEncrypt, ElGamalDecrypt")],[],["decrypted element"])

prop("C23","The deployed programs run round after round as operated",
 "Started as separate programs from their configuration files and driven only by the operator's key presses and the clients' typed commands, the coordinator, servers and clients complete every round: each client joins, posted bridges reach other clients that ask for them, votes typed by a client change the provider's reputation in the next round by exactly that feedback, and ten placeholder entries plus one entry per client are published each round. No program stops on its own, whatever the operator and the users type in whatever phase, and also not when a client has left.",
 ["histories","configurations"],"every number of servers and clients and every script of operator and client commands",
 "No test starts any of the programs.",
 ["cmd/main.go",CO+"CoordinatorLauncher.go",SE+"ServerLauncher.go",CL+"ClientLauncher.go","util/ConfigReader.go"],
 [("life cycle loops",CO+"CoordinatorLauncher.go Launch; "+SE+"ServerLauncher.go Launch; "+CL+"ClientLauncher.go Launch")],[],["network messages received by a client","process exits"])

prop("C24","Operator actions and arriving messages never race inside the coordinator",
 "The coordinator's phase changes, triggered by the operator, and its handling of arriving messages never access its tables concurrently in an unsynchronised way: no interleaving of the two crashes it or leaves it with a mixed state.",
 ["schedules"],"every thread interleaving of the operator loop with the listener",
 "Only particular interleavings of two threads show it; no test runs the coordinator.",
 [CO+"CoordinatorLauncher.go",CO+"CoordinatorHandler.go"],[("operator loop and listener share the state without a lock",CO+"CoordinatorLauncher.go Launch, startServerListener")],[],["coordinator crash or mixed state"])
prop("C25","Typed commands and arriving messages never race inside a client",
 "A client program carries out the commands its user types and the messages it receives one at a time: no interleaving of the two crashes it, and every post, request and vote it sends is made from the state of one single round (pseudonym, base, published commitment and assignments).",
 ["schedules"],"every thread interleaving of a client's command loop with its listener",
 "Only particular interleavings of two threads show it; no test runs the client.",
 [CL+"ClientLauncher.go",CL+"ClientHandler.go"],[("command loop and listener share the state without a lock",CL+"ClientLauncher.go Launch, startClientListener")],[],["client crash or message mixed from two rounds"])

prop("C26","A bridge request shows that the reputation suffices and nothing more",
 "All that the coordinator and the servers see of a client's bridge requests, however many requests it and others make within a round and over rounds, shows which number of bridges is asked for and that the reputation behind the published commitment is at least that; it does not show, or narrow down, the reputation, the difference, or the openings of the commitments. Every commitment in a request is blinded afresh, every response of the two arguments is masked with fresh randomness that is longer, by a statistical margin, than the product of secret and challenge it hides (or is taken modulo the group order), and nothing else in the request depends on the secrets.",
 ["inputs","histories"],"every reputation, every number asked for and every sequence of requests and arguments",
 "The tests prove and verify one fixed value each; hiding is about the distribution of what is sent over many requests.",
 ["primitive/fujiokam/FujiOkamCommitment.go","primitive/pedersen_fujiokam/equality.go",CL+"ClientLauncher.go"],
 [("argument responses","primitive/fujiokam/FujiOkamCommitment.go ProveNonnegHelper, primitive/pedersen_fujiokam/equality.go ProveEqual"),("request",CL+"ClientLauncher.go requestBridges")],[],["parameters of the requests on the wire"])

prop("C27","Messages that say nothing, and strangers' connections, change nothing",
 "Bytes that are no event, events of an unknown kind or without a usable sender address, connections that bring nothing, are broken off half-way or are never ended, stop none of the programs, change nothing in them and are not answered, at any moment of any history: at most they delay others for a few seconds. The coordinator treats in the same way messages that cannot be made sense of, whoever they seem to come from (registrations of clients and servers, challenges, posts, requests, signatures, votes, values of h, registrations passed on and tables with missing, misplaced, wrongly typed, cut or overlong parameters, or lists of the wrong length, properly signed or not): it stays up, the servers, clients, table, tallies, bridges, assignments, votes, registrations and configuration under way are as if they had not come, and honest clients go on as before.",
 ["inputs","histories","fault_sequences"],"every malformed message, in every phase, from members, strangers and broken connections",
 "No test starts the coordinator; which of the many malformed messages does harm depends on what was done before it is found to be malformed, and in which phase.",
 [CO+"CoordinatorHandler.go",CO+"CoordinatorLauncher.go","util/Util.go",SE+"ServerLauncher.go",SE+"AnonServerHandler.go",CL+"ClientLauncher.go",CL+"ClientHandler.go"],
 [("one message after the other, dropped if it cannot be handled",CO+"CoordinatorHandler.go Handle"),("listeners",CO+"CoordinatorLauncher.go startServerListener; "+SE+"ServerLauncher.go startAnonServerListener; "+CL+"ClientLauncher.go startClientListener; util/Util.go Receive"),("decoders","util/Util.go")],
 [("coordinator's round state","clients, table, tallies, bridges, assignments, votes, registrations in flight",CO+"Coordinator.go")],
 ["coordinator state before and after a hostile message","process exits","messages clients receive"],H)

out=os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),"properties.jsonl")
with open(out,"w") as f:
    for p in P:
        assert len(p["title"])<=80,(p["id"],len(p["title"]))
        f.write(json.dumps(p)+"\n")
print(len(P),"properties")
