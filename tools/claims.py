HOOKS=None
NOTES='No hooks in /repo: the seams used are the frontend.API builder interface, the hint functions, http.DefaultTransport, and source overlays generated at check time.'
CLAIMS={
'C01':('seeded circuits, sessions, histories and back ends; honest sessions of an independent prover must be accepted','Seeded search, not exhaustive. Trusts the reference prover/verifier (validated on the recorded proofs) and the simulated builder (cross-checked against the real gnark builders and solver in one world).'),
'C02':('seeded channel faults on honest sessions; differential against an independent native verifier','Seeded search over transport faults. Trusts the reference verifier as the specification.'),
'C03':('Byzantine prover node deviating at one seeded step, also with rigged verifier coins so that exactly one check can notice','Seeded search over deviations. Trusts the reference verifier as the specification.'),

'C04':('a lying hint service under a seeded lie schedule: at single operations, random programs of operations, composites, the transcript and pinned call sites of the whole verifier, and adaptively','Seeded search over lies (random, structured and adaptive). Values are compared with an independent implementation of each operation.'),
'C05':('a prover node that re-encodes field elements, alone or consistently with its commitments, and lies about limb splits','Seeded search; the sweep world attributes an objecting constraint to every single element of a message.'),
'C06':('seeded histories of transcript operations and arbitrary messages against an independent duplex sponge','Seeded search over histories up to about sixteen operations and messages of all generated shapes.'),
'C13':('seeded shape faults on messages and circuit data, and forged misfits whose values satisfy every value check','Seeded search; a message of the wrong shape must be refused at build time whatever its values.'),

'C08':('simulated builders with every capability combination, override settings, injected range-checker failures, boundary values and lies, large committed batches, gnark builders','Seeded search. The commitment of the simulated committer is a hash; gnark\'s own committed checker runs on top of it.'),

'C07':('a seeded cooperative scheduler preempts concurrent builds at every statement of an instrumented copy; simulated locks; injected builder failures; race detection by vector clocks','Seeded search over interleavings at statement granularity of the repository; gnark internals are atomic. Worlds that need the scheduler are skipped if the tree cannot be instrumented.'),
'C14':('seeded map orders, process histories, concurrent builds, proof values and lying hints; the fingerprint of the emitted stream must not change','Seeded search. The fingerprint covers every builder operation, constraint and hint call with its operands.'),

'C09':('artifacts loaded from a simulated disk with damaged files, read faults and unreadable stretches; differential against an independent decoder','Seeded search over documents, damage and read faults. Key matching is that of encoding/json, shared with the code.'),

'C10':('a simulated ceremony, HTTP transport and disk: forged participants, lost, truncated, corrupted, misrouted and stale answers, reruns on a stale cache; a reference model over discrete logarithms decides what may be saved','Seeded search over ceremonies of up to eighteen participants and network fault traces. Degenerate contributions at infinity, accepted by the third-party library, are not generated.'),
'C11':('disk faults, crashes at seeded and enumerated points, power losses that keep a seeded part of the unsynced state, reruns','Seeded search. The disk model assumes atomic renames and that a successful sync makes the file content durable.'),
'C12':('the real command-line tool as a simulated process on a faulty disk, with a small circuit in place of the verifier circuit','Seeded search over fault traces on the artifacts; artifacts are parsed back and checked against each other.'),
}
