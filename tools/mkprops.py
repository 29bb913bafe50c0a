#!/usr/bin/env python3
# Generates /verif/properties.jsonl (single place where the property texts live).
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    P.append({"id": id, "title": title, "statement": statement,
      "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
      "anchors": {"files": files, "state": [dict(name=n, meaning=m, where=w) for n, m, w in state],
        "mechanism": [dict(name=n, where=w) for n, w in mech],
        "observe_at": list(observe), "hook_needed": hook}})

prop("C01", "A survey's answer equals the query evaluated over the plaintext data",
 "For every survey (any roster size, any split of the responses over servers including servers without data, any mix of clear and encrypted attributes, sums, count, WHERE predicate and GROUP BY), what the querier decrypts is exactly one row per group that has at least one response satisfying the predicate, carrying that group's values and the exact (non-negative) sums over all responses that satisfy it, each counted once. No other group and no other value appears, and this is the same with proofs switched on or off.",
 ["inputs", "configurations"], "Every query shape, every data set within the homomorphic range, every distribution of data over 1..n servers.",
 "The service tests run three fixed data sets on 3-5 servers with one fixed predicate; the answer depends on every combination of attribute kinds, group placement, empty servers and filter outcome.",
 ["services/service.go", "services/api.go", "lib/store/store.go", "lib/structs.go", "protocols/tools_protocol.go"],
 [("local pre-aggregation of clear responses and conversion to ciphertext rows", "lib/store/store.go InsertDpResponse/PullDpResponses"),
  ("phases: shuffle, tag, filter, aggregate, key switch", "services/service.go StartService"),
  ("row <-> matrix conversions", "protocols/tools_protocol.go")],
 [("Survey", "per-server survey record: query, store, lengths, keys", "services/service.go")],
 ["querier's decrypted result (API.SendSurveyResultsQuery)"])

prop("C02", "Survey phases wait for every server and every expected data provider",
 "A survey's creation is only acknowledged once every server of the roster knows the survey, and the answer is only computed after every announced data-provider upload on every server has been received and every server has finished shuffling and tagging its data. This holds for every interleaving of creation, upload, results request and inter-server notifications, so a results request issued before, during or after the uploads returns the complete answer, never a partial one.",
 ["schedules"], "Every order in which uploads, results request, per-server notifications and protocol phases of the servers can interleave.",
 "Tests upload everything, then ask; the arrival orders of broadcast, tagging-finished and upload messages are whatever the scheduler happened to produce.",
 ["services/service.go", "lib/tools/tools.go"],
 [("creation barrier", "services/service.go HandleSurveyCreationQuery / HandleQueryBroadcastFinished"),
  ("upload barrier", "services/service.go StartService (DpChannel)"),
  ("tagging barrier", "services/service.go HandleDDTfinished / NewProtocol")],
 [("SurveyChannel", "acknowledgements of survey creation", "services/service.go Survey"), ("DpChannel", "uploads received", "services/service.go Survey"), ("DDTChannel", "servers that finished tagging", "services/service.go Survey")],
 ["return of the creation request", "return and content of the results request", "inter-server service messages"])

prop("C03", "Surveys are isolated from each other and unknown surveys are refused",
 "Any number of surveys can exist and run at the same time on the same servers: each survey's answer depends only on that survey's query and on the data uploaded to it, and is encrypted for the key given by that survey's requester. Uploading to, or asking for the results of, a survey id that does not exist is answered with an error, changes nothing, and leaves the servers able to serve every other survey.",
 ["histories", "schedules"], "Every history of creations, uploads and results requests over several surveys, overlapping arbitrarily, including requests with unknown ids.",
 "One test runs two surveys in lock-step; no test mixes phases of different surveys, reuses queriers, or uses unknown ids together with live surveys.",
 ["services/service.go", "services/api.go", "lib/store/store.go"],
 [("per-survey map entry", "services/service.go getSurvey/putSurvey"), ("survey id carried by every message", "services/service.go")],
 [("Service.Survey", "map of survey id to survey", "services/service.go")],
 ["querier's decrypted results", "errors returned to clients"])

prop("C04", "Collective aggregation counts every server's contribution exactly once",
 "For every tree of servers, every set of groups and attribute values held by each server (including servers with nothing, different groups, or a different number of attributes) and every order in which the servers' messages arrive, the collective aggregation delivers exactly the union of the groups, each with its grouping attributes and the attribute-wise sum of all servers' contributions (a missing attribute counting as zero), wherever the vectors of the servers' data are stored.",
 ["schedules", "inputs", "configurations"], "All tree shapes and sizes, all per-server contents, all message arrival orders permitted by FIFO channels.",
 "Existing tests use one binary tree with identical key sets (and one with different sizes that is flaky because of arrival order).",
 ["protocols/collective_aggregation_protocol.go", "lib/structs.go", "lib/crypto.go"],
 [("length message paired with the data message of the same child", "protocols/collective_aggregation_protocol.go ascendingAggregationPhase"), ("per-group merge with zero padding", "protocols/collective_aggregation_protocol.go"), ("wire encoding of the group list", "protocols/collective_aggregation_protocol.go ToBytes/FromBytes")],
 [("GroupedData", "groups aggregated so far at a server", "protocols/collective_aggregation_protocol.go")],
 ["root's feedback channel", "order of protocol message deliveries"])

prop("C05", "Shuffling returns the same rows, intact, re-encrypted and in random order",
 "For every roster, number of rows (at least one), number of columns and plaintext contents, with or without precomputed randomness, shuffling delivers a permutation of the input rows: each row's plaintexts stay together and in column order and no row is lost, duplicated or altered. Every delivered ciphertext is re-randomised by every server (none equals the ciphertext it came from), each row and column with its own randomness unless precomputed randomness is used, and the order is not predictable from the input order. Putting a list of responses into the form that is shuffled, and back, keeps every response as it was (one added for shuffling changes no sum and no group) and changes nothing in the given list or beyond it.",
 ["inputs", "configurations"], "All row/column counts (including batch boundaries), all plaintexts, all roster sizes and circuits, precomputed or fresh randomness.",
 "Tests shuffle a handful of rows and check the plaintexts as a set; they do not check row integrity per column, freshness per server, or sizes around the parallel batch size.",
 ["protocols/shuffling_protocol.go", "lib/shuffle/shuffle.go", "lib/crypto.go", "protocols/tools_protocol.go"],
 [("permute and re-randomise", "lib/shuffle/shuffle.go ShuffleSequence"), ("circuit through all servers", "protocols/shuffling_protocol.go"), ("matrix wire encoding", "lib/crypto.go ArrayCipherVectorToBytes"), ("responses as rows and back", "protocols/tools_protocol.go ProcessResponseToMatrixCipherText")],
 [], ["root's feedback channel", "messages between consecutive servers"])

prop("C06", "Deterministic tags are equal exactly when the plaintexts are equal",
 "After distributed deterministic tagging, position i of the output is a tag of position i of the input, and two tags produced with the same servers' secrets - in the same run, in different runs, or started by different servers - are equal if and only if the two plaintexts are equal, whatever randomness encrypted them. In another survey, where any one server's secret is another, no tag comes back, whatever the plaintexts; the service gives every survey secrets of its own, so that the servers cannot link the groups of two surveys. Grouping keys built from several tags are equal if and only if all tags are equal in order.",
 ["inputs", "configurations"], "All vectors of plaintexts (sizes 0 to several batches, negatives, duplicates), all roster sizes and roots, proofs on or off.",
 "Tests tag two or three short vectors on one roster and compare a few positions.",
 ["protocols/deterministic_tagging_protocol.go", "lib/deterministic_tag/deterministic_tag.go", "lib/crypto.go", "protocols/tools_protocol.go"],
 [("round 1: add secret, round 2: strip key and multiply by secret", "protocols/deterministic_tagging_protocol.go Dispatch"), ("tag of one ciphertext", "lib/deterministic_tag/deterministic_tag.go"), ("grouping key", "lib/crypto.go DeterministCipherVector.Key")],
 [], ["root's feedback channel"])

prop("C07", "Key switching re-encrypts the same values, in order, for the new key",
 "For every roster and tree (including a single server), every vector of ciphertexts under the collective key, every target key and every message arrival order, key switching delivers the same number of ciphertexts in the same order, each decrypting under the target private key to the plaintext of its input. The result is freshly randomised and does not decrypt with a key other than the target's. A list of responses put into the form that is switched, and back, is the same list.",
 ["inputs", "schedules", "configurations"], "All vectors (0 to several batches), trees of 1..n servers, arrival orders, target keys; proofs on or off.",
 "The tests switch two fixed short vectors on one tree; single-server rosters, batch boundaries and arrival orders are not reached.",
 ["protocols/key_switching_protocol.go", "lib/key_switch/key_switch.go", "protocols/tools_protocol.go"],
 [("each server's share from the original ephemeral keys", "lib/key_switch/key_switch.go"), ("sum of shares up the tree", "protocols/key_switching_protocol.go ascendingKSPhase")],
 [("NodeContribution", "partial sum of key-switching shares", "protocols/key_switching_protocol.go")], ["root's feedback channel"])

prop("C08", "The combined shuffle-and-tag protocol loses, alters and mixes no row",
 "For every roster, row (at least one) and column count and plaintext contents (also around the size of a parallel batch), the combined shuffle-and-tag protocol delivers a permutation of the input rows in tag form: each row keeps its columns together and in order, and two tags anywhere in the output are equal if and only if their plaintexts are equal, while no tag comes back when any one server's secret is another. Outputs produced with the same servers' secrets by runs started at the same server are comparable, and the outcome is the same with proofs or precomputed randomness on or off.",
 ["inputs", "configurations"], "All matrices of plaintexts, roster sizes, proofs/precomputation flags.",
 "The one existing test uses a single small matrix and compares two rows.",
 ["protocols/shuffling+ddt_protocol.go", "lib/shuffle/shuffle.go", "lib/deterministic_tag/deterministic_tag.go"],
 [("round 1: shuffle and add secret", "protocols/shuffling+ddt_protocol.go"), ("round 2: tag", "protocols/shuffling+ddt_protocol.go")],
 [], ["root's feedback channel"])

prop("C09", "Honestly produced proofs always verify",
 "Every proof of a correctly performed operation - addition/aggregation, shuffle, key switching, deterministic tagging (both steps), adding or removing a server - verifies, for single proofs and for lists of any size, for any verified share of a list, before and after a round trip through the byte format, and for the proofs servers publish while running the protocols. Requesting or verifying proofs never changes the data being processed.",
 ["inputs", "configurations", "programs"], "All operations, all vector sizes (including more than one parallel batch), all verification percentages, all roster sizes.",
 "Each proof type has one test with a couple of elements; lists longer than a batch, fractions, round-tripped proofs and proofs emitted inside protocol runs are not covered.",
 ["lib/aggregation/aggregation_proofs.go", "lib/shuffle/shuffle_proofs.go", "lib/key_switch/key_switch_proofs.go", "lib/deterministic_tag/deterministic_tag_proofs.go", "lib/add_rm/add_rm_proofs.go", "protocols/utils/proofs_verification_protocol.go"],
 [("proof creation and verification per type", "lib/*/*_proofs.go")], [], ["verification verdicts"])

prop("C10", "A proof never verifies for a statement that is false",
 "For every proof type, if the published statement is not what the operation really produced - a ciphertext, ephemeral point, public key, row, position or list element altered, replaced, swapped, dropped or added, in any element of a list of any size, or a proof reused for another statement - full verification rejects it.",
 ["inputs", "fault_sequences"], "All single and pairwise substitutions in the statement and proof of every proof type, at every list position.",
 "Tests tamper with one fixed field of each proof type; acceptance of a false statement is a for-all property over fields, positions and sizes.",
 ["lib/aggregation/aggregation_proofs.go", "lib/shuffle/shuffle_proofs.go", "lib/key_switch/key_switch_proofs.go", "lib/deterministic_tag/deterministic_tag_proofs.go", "lib/add_rm/add_rm_proofs.go"],
 [("binding of the zero-knowledge proof to the published points", "lib/*/*_proofs.go *Verification")], [], ["verification verdicts"])

prop("C11", "The store hands every response over exactly once, unchanged",
 "Every response, aggregate or result put into a server's store is handed over by exactly one later pull of its kind (a list of results replaces one nobody pulled), with exactly the contents inserted (responses whose attributes are all in clear may be summed per group and filter values), however inserts and pulls interleave and from however many clients at once. What a pull returned never changes afterwards, nor do the responses and aggregates that were put in (a list of results becomes the store's own), and nothing is handed over twice or lost.",
 ["histories", "schedules"], "All interleavings of insertions and pulls of all kinds, repeated pulls, concurrent inserters.",
 "The store test inserts once and pulls once, sequentially, and never looks at a pulled batch again after later insertions.",
 ["lib/store/store.go", "lib/structs.go"],
 [("insert/push/pull per stage", "lib/store/store.go")],
 [("DpResponses/DpResponsesAggr", "received responses not yet pulled", "lib/store/store.go"), ("ShuffledProcessResponses, LocAggregatedProcessResponse, GroupedDeterministicFilteredResponses, DeliverableResults", "later stages", "lib/store/store.go")],
 ["values returned by pulls"])

prop("C12", "Encrypted arithmetic and decryption are exact whatever happened before",
 "Encrypting, adding, subtracting, multiplying by a constant and decrypting integers or vectors gives the exact integer result for every value and vector length in the supported range, and never modifies the operands. What a decryption returns does not depend on which decryptions happened before or happen at the same time, for non-negative and (with the negative-aware decryption) negative values alike. Ciphertexts and vectors (of either kind) compare equal exactly when they have the same length and all their points are the same.",
 ["histories", "inputs", "schedules"], "All histories of decryptions (they grow a shared table), all operand values and vector sizes, concurrent callers, aliased operands.",
 "Tests decrypt a few increasing values; the shared lookup table makes results depend on history, which a fixed sequence cannot explore.",
 ["lib/crypto.go"],
 [("shared point-to-integer table", "lib/crypto.go discreteLog"), ("homomorphic operations", "lib/crypto.go")],
 [("PointToInt/currentGreatestInt", "memoised discrete logarithms", "lib/crypto.go")], ["decrypted values, operand values"])

prop("C13", "Every serialised structure reads back as exactly what was written",
 "Every ciphertext, vector, matrix, response, grouped result, protocol message, precomputation record and proof that is turned into bytes (or text) and read back equals the original: same element count, order, nesting, group keys and values, for every shape including empty parts, single elements, rows of different lengths, and sizes beyond one parallel batch; a value the format cannot represent is refused with an error.",
 ["inputs"], "All shapes and sizes of all serialisable structures.",
 "Tests round-trip one small instance of some of the structures.",
 ["lib/crypto.go", "lib/structs.go", "protocols/collective_aggregation_protocol.go", "protocols/shuffling_protocol.go", "protocols/deterministic_tagging_protocol.go", "protocols/shuffling+ddt_protocol.go", "lib/shuffle/structs.go", "lib/tools/tools.go"],
 [("ToBytes/FromBytes pairs", "lib/crypto.go, lib/structs.go, protocols/*.go")], [], ["decoded values"])

prop("C14", "Malformed bytes are refused with an error, never a crash",
 "Decoding any byte string or text that was truncated, extended to a wrong length, corrupted into something that is not a group element, or is accompanied by lengths that do not match it returns an error (or a value of the announced shape) and never panics, hangs or reads outside the given data. A data provider's or server's malformed upload is therefore answered with an error and cannot take the server down or change a survey.",
 ["inputs", "fault_sequences"], "All truncations, length mismatches and corruptions of the serialised structures a server or client reads from others.",
 "No test decodes anything malformed.",
 ["lib/crypto.go", "lib/structs.go", "services/service.go", "protocols/collective_aggregation_protocol.go", "protocols/shuffling_protocol.go", "lib/shuffle/structs.go"],
 [("FromBytes error results", "lib/crypto.go, lib/structs.go"), ("upload handling", "services/service.go PushData")], [], ["error results"])

prop("C15", "Adding or removing a server re-encrypts every value for the new key exactly",
 "Adding (removing) a server transforms every ciphertext of the data set so that it decrypts to the same plaintext under the collective key with that server's key added (removed), keeping number and order of the elements, leaving the input untouched; adding and then removing the same server gives back the original encryption. This holds for data sets of any size and with proofs on or off.",
 ["inputs", "histories"], "All data sizes (including several batches), sequences of additions and removals of several servers.",
 "The test adds/removes one server on a few elements.",
 ["protocols/utils/addrm_server_protocol.go", "lib/add_rm/add_rm_proofs.go"],
 [("change of encryption key", "protocols/utils/addrm_server_protocol.go")], [], ["feedback channel"])

prop("C16", "Local computations running at the same time never exchange results",
 "Any number of local aggregations, clear aggregations, server additions/removals and proof verifications may run at the same time in one process: each delivers, exactly once, the result computed from its own input, equal to what it delivers when run alone. Local aggregation delivers per group the exact sums, clear aggregation the exact clear sums per group over the matching responses (a response matches when none of its WHERE attributes is 0), and proof verification one verdict per proof in the documented order.",
 ["schedules", "inputs"], "All interleavings of several instances (same or different kind) with different inputs.",
 "Each test runs one instance at a time.",
 ["protocols/utils/local_aggregation_protocol.go", "protocols/utils/local_clear_aggregation_protocol.go", "protocols/utils/addrm_server_protocol.go", "protocols/utils/proofs_verification_protocol.go"],
 [("result hand-over between Start and Dispatch", "protocols/utils/*.go")],
 [("result channel", "carries the result of one instance", "protocols/utils/*.go")], ["feedback channels"])

prop("C17", "Precomputed shuffle randomness is always usable and matches the survey's key",
 "Whatever precomputation file was left behind by earlier surveys (other collective key, other number of columns, interrupted while being written, or none), creating a survey either yields precomputed randomness that encrypts zero under this survey's collective key with enough columns for its rows, or reports an error; it never yields randomness that makes later results wrong or crashes the shuffle. An interrupted or damaged file never prevents later surveys from being created.",
 ["histories", "crash_points", "configurations"], "All sequences of survey creations with changing keys and sizes, with a crash at any point of writing the file.",
 "Tests always start from a deleted file and one key.",
 ["lib/shuffle/shuffle.go", "lib/shuffle/structs.go", "lib/tools/tools.go", "services/service.go"],
 [("read-or-create of the cache file", "lib/shuffle/shuffle.go PrecomputationWritingForShuffling"), ("file writing", "lib/tools/tools.go WriteToGobFile")],
 [("gob file", "cached precomputation", "working directory of a server")], ["returned randomness", "shuffle result"])

prop("C18", "A response is kept exactly when it satisfies the query's predicate",
 "Filtering keeps exactly the responses whose tagged WHERE attributes make the predicate true, in their original order, each with its own grouping tag, grouping attributes and values, for any number of WHERE attributes and responses and any boolean predicate over them; with no predicate or no WHERE attribute everything is kept. A predicate that is malformed or does not evaluate to a truth value keeps nothing and never crashes the server (parts of a predicate whose value cannot change the outcome need not be evaluated).",
 ["inputs", "programs"], "All predicates over equality of the attribute pairs (and, or, not, nesting), all tag assignments, including malformed predicates.",
 "Two fixed predicates are tested with a fixed data set.",
 ["services/service.go"],
 [("predicate evaluation per response", "services/service.go FilterResponses/FilterNone")], [], ["filtered responses"])

prop("C19", "Clear-text reference results and test data are computed and stored faithfully",
 "Generated test data written to a file and read back is identical, has the requested shape (providers, responses, groups, attributes) and respects the requested bounds, and the expected clear result is the exact per-group sum over all matching responses of all providers (those none of whose WHERE attributes is 0, when these are in clear), counting repetitions, without changing its input. Comparing an obtained with an expected result says equal exactly when they contain the same groups with the same sums.",
 ["inputs"], "All combinations of counts, group specifications, repetitions and values; all pairs of equal and unequal results.",
 "Tests use one shape and compare one pair.",
 ["data/handle_data.go", "lib/store/store.go", "lib/tools/tools.go"],
 [("generation, file format, expected result, comparison", "data/handle_data.go"), ("clear aggregation", "lib/store/store.go AddInClear")], [], ["returned data, files"])

prop("C20", "The command line turns a query into exactly the survey that was written",
 "For every well-formed command line the client submits exactly one survey with exactly the attributes written, in that order, the where values encrypted for the servers' collective key, the predicate as written, and the count and proof options as given. Well-formed are: a sum list {s1, s2, ...} that contains the item count if --count is given; optionally a where list {w1, 27, w2, 3, ...} of attributes and non-negative 64-bit integers together with a predicate (both or neither); optionally a group-by list {g1, g2, ...}; in each list blanks, tabs and newlines may follow the commas. A command line whose lists are not of this form (apart from blanks elsewhere, empty braces, negative values, and the item count without --count, where the query may either be refused or be taken exactly as written) is refused with a non-zero exit status and nothing is submitted.",
 ["inputs"], "All combinations of the query options, well-formed and malformed.",
 "The tests parse four fixed strings.",
 ["cmd/unlynx/client.go", "cmd/unlynx/main.go"],
 [("regular expressions and splitting", "cmd/unlynx/client.go parseQuery")], [], ["survey creation request sent to the server", "exit status"])

prop("C21", "The noise list has the requested size and follows the privacy parameters",
 "For every combination of size, scale, quantum and limit (mean zero), noise generation terminates with exactly the requested number of values, ordered from zero outwards in pairs of a value and its negative, integer multiples of the scaling unit, each value occurring as often as its density divided by the quantum (rounded up, at least once), so that more probable values occur at least as often as less probable ones, and, when no quantum is given, none beyond the requested limit. When results are released with noise, the chosen noise value is added to every released aggregate exactly once and to nothing else.",
 ["inputs"], "All parameter combinations; all result sets.",
 "Two parameter sets are tested; adding the noise to results is not tested at all.",
 ["lib/differential_privacy/diff_privacy.go", "lib/store/store.go"],
 [("quantised Laplace list", "lib/differential_privacy/diff_privacy.go"), ("noise addition on pull", "lib/store/store.go")], [], ["noise list", "pulled results"])

prop("C22", "A lost server or message never turns into a wrong or partial answer",
 "If a server crashes, is disconnected or a protocol message is lost at any point of a collective computation, the computation ends with an error or without an answer within the configured time-out; it never delivers an answer that omits, repeats or corrupts a server's part (waiting for uploads that data providers announced and have not sent is not bounded). Servers that stay up keep serving other surveys correctly.",
 ["fault_sequences", "crash_points"], "Loss of any single server or message at any point of each collective computation.",
 "No test injects a fault.",
 ["protocols/collective_aggregation_protocol.go", "protocols/key_switching_protocol.go", "protocols/shuffling_protocol.go", "protocols/deterministic_tagging_protocol.go", "services/service.go"],
 [("time-outs on channels", "protocols/*.go, services/service.go")], [], ["feedback channels", "client responses"])

here = os.path.dirname(os.path.abspath(__file__))
with open(os.path.join(here, "..", "properties.jsonl"), "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps(p) + "\n")
