import json
P=[]
def p(id,title,statement,over,text,why,files,mech,state=None,observe=None,hook=None):
    assert len(title)<=80,(id,len(title))
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,state=state or [],mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=observe or [],hook_needed=hook)))
p("C01","Every honestly produced proof is accepted",
 "For every circuit assembled from the supported gates and parameters, a proof produced by an honest plonky2 (PoseidonBN254) prover for a true statement is accepted by the in-circuit verifier, with the honest hint solver and under each supported range-check back end. Acceptance does not depend on which other proofs were verified before or on the order in which backing services answer.",
 ["inputs","configurations","histories"],"all circuits (gate mix, gate parameters, selector layout, degree, number of challenges, rate, queries, proof-of-work bits, public inputs), all honest proofs for them, all back ends",
 "The tests hold exactly two recorded proofs (one circuit family, one FRI configuration); gate code with other parameters, other selector layouts or degrees is never executed on a valid witness.",
 ["verifier/verifier.go","plonk/plonk.go","plonk/gates","fri/fri.go","fri/fri_utils.go","challenger/challenger.go","poseidon","goldilocks"],
 [("verifier circuit","verifier/verifier.go Verify"),("vanishing polynomial","plonk/plonk.go evalVanishingPoly"),("gate constraints","plonk/gates/*.go EvalUnfiltered"),("FRI query rounds","fri/fri.go VerifyFriProof")],
 observe=["NewVerifierChip(api, common).Verify(proof, publicInputs, verifierData) completes with every constraint satisfied"])
p("C02","A proof altered in transit is never accepted",
 "If any field of the (proof, public inputs, verifier data) message reaching the verifier differs from an honest session's message - corrupted, dropped, duplicated, reordered within the message, or replayed from another session - the verifier circuit is unsatisfiable, unless the delivered message is itself a valid proof by the plonky2 specification. The verifier's accept/reject decision equals that of an independent native plonky2 verifier on every delivered message.",
 ["inputs","fault_sequences","histories"],"all honest sessions and all sequences of transport faults applied to their messages",
 "One hand-made negative test exists at most; the set of single and combined message faults over every field is unbounded.",
 ["verifier/verifier.go","fri/fri.go","plonk/plonk.go","challenger/challenger.go"],
 [("transcript binds every message","verifier/verifier.go GetChallenges"),("Merkle path checks","fri/fri.go verifyMerkleProofToCap*"),("quotient identity","plonk/plonk.go Verify")],
 observe=["constraint failure (or refusal to build) on the altered message"])
p("C03","A cheating prover cannot get a false statement accepted",
 "A Byzantine prover that deviates from the protocol at any single step (a violated gate constraint, broken copy constraint, wrong permutation accumulator, wrong quotient, wrong opening, inconsistent FRI layer, missing proof of work, leaf or fold not matching the commitment) while keeping everything else consistent, including choosing the verifier's coins where a component takes them as arguments, is rejected. In particular every one of the verifier's checks is individually load-bearing for every query round, challenge and FRI layer.",
 ["inputs","fault_sequences","programs"],"all deviations of one protocol step by an adaptive prover, at every round, challenge index, query index, layer and gate",
 "Tests only present honest proofs; a removed or weakened check leaves them green.",
 ["plonk/plonk.go","plonk/gates","fri/fri.go","verifier/verifier.go"],
 [("vanishing/quotient identity","plonk/plonk.go Verify"),("FRI consistency and final polynomial","fri/fri.go verifyQueryRound"),("proof of work","fri/fri.go assertLeadingZeros")],
 observe=["constraint failure in Verify / PlonkChip.Verify / fri.Chip.VerifyFriProof"])
p("C04","Malicious hint answers can never produce a wrong value",
 "Out-of-circuit hint functions are computed by the untrusted prover: whatever values they answer, in any order and at any call, if all emitted constraints are satisfied then every Goldilocks, quadratic-extension, Poseidon, transcript and verifier result equals the mathematically correct one. A lying hint service is therefore always caught by a constraint.",
 ["inputs","fault_sequences","histories"],"all hint answers at all hint call sites, for all operand values the verifier can produce",
 "Tests always run the honest hint implementations, so an under-constrained operation is invisible to them.",
 ["goldilocks/base.go","goldilocks/range_checker_utils.go","goldilocks/quadratic_extension.go","poseidon/goldilocks.go","poseidon/bn254.go","fri/fri.go"],
 [("hint answers are range checked and multiplied back","goldilocks/base.go"),("canonical 64-bit check","goldilocks/base.go RangeCheck"),("quotient bound below the native field wrap-around","goldilocks/base.go ReduceWithMaxBits, poseidon/goldilocks.go")],
 observe=["frontend.Compiler.NewHint answers substituted by the simulator; AssertIsEqual / range check outcome; returned values"])
p("C05","Non-canonical field encodings in a proof are rejected",
 "Every Goldilocks element carried by a proof (openings, query leaves, FRI layer evaluations, final polynomial, proof-of-work witness) must be its canonical representative below the field order; a proof in which any such element is replaced by a different representative of the same residue is rejected even when all hashes, commitments and identities are recomputed consistently for the altered encoding. Public inputs are the caller's responsibility and are excluded.",
 ["inputs","fault_sequences"],"all proof positions and all non-canonical representatives",
 "Recorded proofs contain only canonical values.",
 ["verifier/verifier.go","goldilocks/base.go","goldilocks/range_checker_utils.go"],
 [("range check of the whole proof","verifier/verifier.go rangeCheckProof"),("RangeCheck / RangeCheckQE","goldilocks/base.go, goldilocks/quadratic_extension.go")],
 observe=["constraint failure in Verify"])
p("C06","Challenges depend on the whole transcript exactly as specified",
 "Every verifier challenge is the exact plonky2 duplex-sponge function of the circuit digest, public inputs hash and all prover messages sent before it, for every interleaving of observe and squeeze operations; no message observed before a challenge can change without changing the challenge, and no later message influences it.",
 ["inputs","histories"],"all sequences of observe/squeeze operations and all message contents and shapes",
 "Tests compare challenges for one recorded proof; buffer-boundary histories and other shapes are not reached.",
 ["challenger/challenger.go","verifier/verifier.go","poseidon/goldilocks.go","poseidon/bn254.go"],
 [("duplex sponge","challenger/challenger.go"),("transcript order","verifier/verifier.go GetChallenges")],
 observe=["values returned by challenger.Chip and VerifierChip.GetChallenges"])
p("C07","Concurrent circuit builds never disturb one another",
 "When several goroutines build or solve verifier circuits at the same time, or several goroutines issue range checks on one builder, every circuit ends up with exactly the constraints and range checks it would have had alone: no check is lost, duplicated into or diverted to another circuit, nothing deadlocks, and a failing build leaves later builds unaffected.",
 ["schedules","histories"],"all interleavings of concurrent chip creation, range-check collection and finalisation, and of failing builds",
 "Tests run builds one after another; a race needs a particular interleaving of a registry lookup or list append.",
 ["goldilocks/base.go","goldilocks/range_checker_utils.go"],
 [("global chip registry guarded by a mutex","goldilocks/base.go New"),("collected range checks guarded by a mutex","goldilocks/base.go rangeCheckerCheck/checkCollected")],
 observe=["per-builder constraint log and range checks under a seeded scheduler"],hook="none in /repo: statement-level yields and a simulated sync package are injected at build time through go build -overlay")
p("C08","Range checks are enforced under every back end or the build is refused",
 "Whatever kind of constraint builder the circuit is compiled for (native range checker, committer, or neither, with or without the bit-decomposition override) every value the verifier range checks is actually confined to the stated width and to canonical form, or the build fails loudly; there is no configuration in which an out-of-range value is silently accepted.",
 ["configurations","inputs","fault_sequences"],"all builder capabilities and override settings, all requested widths, all out-of-range values, all sizes and orders of collected checks, failure of the range-check back end",
 "Tests use two builders and the test engine, and never feed an out-of-range value through each back end.",
 ["goldilocks/base.go","goldilocks/range_checker_utils.go"],
 [("range checker selection","goldilocks/range_checker_utils.go / base.go New"),("deferred batched check","goldilocks/base.go checkCollected")],
 observe=["builder capabilities offered by the simulator; accept/reject per value"])
p("C09","Artifact loading is exact or fails loudly under I/O faults",
 "Loading common circuit data, verifier-only data or a proof from disk either yields exactly the values written in the file or terminates with a panic. Short reads and reads in pieces change nothing; failing opens and reads, and missing, truncated, torn or damaged files never yield values other than those the file spells out. A file that is not exactly one well-formed JSON document of the expected types (including trailing bytes), a hash that is not a decimal integer, and circuit data with hiding enabled are refused. Earlier or later loads in the same process do not affect a loaded value.",
 ["inputs","fault_sequences","crash_points"],"all artifact contents and all read-fault sequences and truncation points",
 "Tests read two intact files on a healthy disk.",
 ["types/common_data.go","types/deserialize.go","variables/deserialize.go"],
 [("whole-file read then strict decode","types/*.go Read*"),("decimal decoding of digests","variables/deserialize.go")],
 observe=["os.File read path intercepted; returned structures compared with an independent decoder"],hook="none in /repo: the Go os package is overlaid at build time")
p("C10","An SRS is saved only from a fully verified contribution chain",
 "The trusted-setup downloader writes the SRS file only when the manifest and every contribution from the start index to the last participant were fetched completely and each one verifiably follows its predecessor, and what it writes is exactly the SRS of the last contribution; under lost, truncated, corrupted, stale or reordered HTTP responses it terminates without leaving an SRS under the requested name.",
 ["fault_sequences","histories","inputs"],"all network fault sequences, participant counts, start indices and forged or out-of-order contributions",
 "The downloader has no test: it needs the network.",
 ["trusted_setup/trusted_setup.go"],
 [("Follows chain check","trusted_setup/trusted_setup.go DownloadAndSaveAztecIgnitionSrs"),("KZG sanity check","trusted_setup/trusted_setup.go sanityCheck")],
 observe=["http.DefaultTransport replaced by a simulated server; resulting file"])
p("C11","The SRS file is complete or absent after any crash or disk fault",
 "At every crash point and under failing, short, torn or lost writes, full disks and failing sync, close or rename, the file under the requested SRS name is absent, unchanged from before, or a complete valid SRS, never anything else, also after a power loss that drops whatever was not synced; the downloader returns normally only when the complete file is in place and every step of saving it succeeded, and once faults stop a rerun (with an emptied download cache) saves the complete SRS.",
 ["crash_points","fault_sequences"],"all crash points and disk-fault sequences during the save, and reruns after them",
 "No test covers saving; crash points and disk errors need a simulated disk.",
 ["trusted_setup/trusted_setup.go","benchmark.go"],
 [("write to a temporary file, sync, close, rename","trusted_setup/trusted_setup.go")],
 observe=["simulated disk: durable content of the SRS path after crash"],hook="none in /repo: os package overlay")
p("C12","The benchmark reports success only if every artifact was saved",
 "When the command-line tool is asked to save artifacts, it exits successfully only if every artifact it is documented to save (proving key, verifying key, Solidity verifier, witness, proof) was created, completely written and closed without error, replaces whatever an earlier run left under its name, and belongs to the named circuit and its recorded proof; any I/O fault that keeps an artifact from being saved leads to a non-zero exit.",
 ["fault_sequences","configurations"],"all disk-fault sequences over all artifact writes, both proof systems, dummy and real setup",
 "main has no tests at all.",
 ["benchmark.go"],[("artifact writing","benchmark.go plonkProof/groth16Proof")],
 observe=["exit status and files under a simulated disk"],hook="none in /repo: os package overlay")
p("C13","Messages whose shape contradicts the circuit data are refused",
 "A proof, public-input vector or verifier data whose shape (number of public inputs, openings per batch, caps, query rounds, steps, evaluations, siblings, final polynomial length) differs from what the common circuit data prescribes is never accepted, however the values are filled in; circuit data with an unknown gate or malformed gate identifier, a missing or absurd gate parameter, an unsupported Merkle cap height or FRI arity, fewer gate constraints or coset shifts than its gates need, or selector groups that contradict its gates is refused at build time.",
 ["inputs","configurations","fault_sequences"],"all shape deviations (dropped, duplicated, appended, reordered, emptied elements at every level) of honest messages",
 "Tests only use matching shapes.",
 ["verifier/verifier.go","fri/fri.go","plonk/gates/gates.go"],
 [("shape validation","verifier/verifier.go Verify, fri/fri.go"),("parameter validation","fri/fri.go, plonk/gates/gates.go")],
 observe=["panic or constraint failure"])
p("C14","The circuit built depends only on the circuit data",
 "Building the verifier (VerifierChip.Verify on a proof of variables) for given circuit data and shapes always emits the same sequence of constraints and hint calls, independently of the proof values, of map iteration order, of goroutine scheduling, of earlier or concurrent builds in the process and of which registered gate pattern is tried first, so a proving key stays valid for every later proof.",
 ["schedules","histories","configurations","inputs"],"all proofs of one shape, all process histories and iteration orders",
 "Tests compile each circuit once per process.",
 ["verifier/verifier.go","plonk/gates/gates.go","goldilocks/base.go"],
 [("gate registry","plonk/gates/gates.go GateInstanceFromId"),("no value-dependent branching","whole circuit")],
 observe=["digest of the emitted constraint stream; compiled constraint system bytes"],hook="none in /repo: map ranges are rewritten to a seeded order in the overlay build")
p("C15","Hash, gate and field constants conform to plonky2 as pure functions",
 "Poseidon over Goldilocks and BN254, the round constants and the gate polynomials, seen as pure functions of their inputs, equal the plonky2 definitions.",
 ["inputs"],"all inputs of the pure functions",
 "Tests sample a few vectors.",
 ["poseidon","plonk/gates","goldilocks"],[("constant tables","poseidon/*_constants.go")],observe=["function outputs"])
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x)+'\n' for x in P))
