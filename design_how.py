HOW = {
'S01': 'The constructors, `deserialize`, `serialize` and the predicates of the three field classes run on symbolic buffers of every length in bounds; acceptance, consumed length, classification and the re-encoding are asserted against a table of prefixes and sizes written in the harness from the Elements format. The prefix byte is symbolic, so all 256 values are decided together.',
'S02': 'Inputs are built from symbolic parts and encoded; the bytes must equal a reference encoder of the harness (`harness/lib.py`, written from the Elements transaction format, sharing no code with the repository). For decoding, every buffer of the bounded lengths is parsed and either refused exactly when the reference says so, or compared field by field; the flag and coinbase rules over the 32-bit index are decided by the solver for all 2^32 values.',
'S03': 'As S02, for outputs and the two kinds of witness records; stacks and proofs vary in number and length, contents are symbolic. Arbitrary buffers are decoded and, when accepted, must re-encode to what was consumed.',
'S04': 'Whole transactions over the shapes of `harness/txshapes.py` are encoded and compared with the reference encoder, with and without witnesses, decoded again by both mutability classes and compared field by field; the stream position after decoding is the encoded length. 253 inputs or outputs cross the length-prefix boundary.',
'S05': 'The parser runs on a buffer about which nothing (short) or only a template (longer) is assumed. Every accepting path must re-encode to exactly the buffer; the solver looks for any buffer for which it does not. Uniqueness of encodings follows.',
'S06': 'The id and hash must be the double SHA-256 (an abstract injective function in the encoding) of the reference encoding; pairs of transactions with independent symbolic contents must have equal ids exactly when their effects are equal; after each kind of change to a mutable transaction the id must be the one of the changed content.',
'S07': 'Histories: an object is built from symbolic parts, converted / cloned in every way, then one symbolic field of one of them is changed to a symbolic value; every other object must still encode the original content and the immutable classes must refuse assignment. Byte arrays given to constructors are changed afterwards at a symbolic position.',
'S08': 'Each predicate and count is compared with its definition over symbolic field contents of every admissible length (so that an explicit prefix with a wrong length, a null commitment, etc. are all covered).',
'H01': 'The hash must be the double SHA-256 of the message that a reference implementation (written in the harness from the Elements segwit v0 rules: issuances, confidential amounts) builds from the symbolic transaction. Because SHA-256 is abstract and injective, equality of hashes is equality of messages, byte by byte, decided by the solver; `raw_sighash` is run with a fully symbolic 32-bit hash type. The `again` jobs (H01, H02, H03) hash two inputs of one mutable transaction, change one thing in place (or take another object), and hash again: a digest kept from before the change would differ.',
'H02': 'As H01 for the legacy rules, including the removal of OP_CODESEPARATOR at opcode boundaries, the SINGLE bug value and inputs past the end.',
'H03': 'As H01 for the Elements taproot and tapscript messages with nested tagged and plain hashes, spent outputs of all kinds, annex, leaf hash and code separator position.',
'H04': 'Relational: the same request twice, with one component replaced by a different symbolic value. By a commitment table (per algorithm, hash type and component) the two hashes must differ, or be equal. Refusals: every index, hash size, number of spent outputs and signature version outside the table must raise a ValueError.',
'A01': 'The results must be the SHA-256 midstate (abstract, injective) of the documented inputs, for symbolic outpoints, hashes and entropies in all accepted types; wrong sizes are refused.',
'B01': 'The real `blind` runs with a functional model of libsecp256k1-zkp (`harness/zkp.py`) in place of the library. The arguments of its balancing primitive are recorded and must be exactly one term per blinded input, issuance and output, with the right amounts, asset factors and value factors, the declared number of inputs, and the derived factor must be used for the last blinded item; the commitments written into the transaction must be the ones of those terms. With concrete data (replays) the balance equation over the curve order itself is evaluated.',
'B02': 'Blinding with the model, then `unblind_confidential_pair` for every blinded output with the right key: amount, asset and both factors must be what went in and what was reported; with a different key, script or proof there must be no success.',
'B03': 'Frame condition: after blinding, every field that was not to be blinded is compared with its original symbolic value, and the report (success flag, count, lists of factors, witness records) with what was done. Refusals: one inadmissible part is put at each position; then the answer must be an error or a failure with a message, and the whole transaction must encode as before.',
'B04': 'The lists handed to the surjection-proof functions are recorded by the model and compared with a reference list: inputs in order, each followed by its issuance pseudo-inputs, then the auxiliary generators; the token kind must be the blinded one exactly when the keys are blinded.',
'B05': 'The library is nondeterministic: every call may fail and the rewinding may return anything. Every success must be justified by the presented data: range proof, commitment, nonce and script were used, the answer is in range, of the right size, and its generator is the one of the asset field (parity included).',
'B06': 'Issuances of inputs are blinded for every combination of amount / inflation keys / reissuance; commitments, range proof requests (minimum, message, nonce, blinding key) and factors are compared with the reference, the other issuance fields must stay.',
'B07': 'The key must be the HMAC-SHA256 (abstract) of the script under the master secret, for every way of giving the script; distinct scripts and masters give distinct keys; foreign types are refused.',
'B08': 'The result and descriptor classes are built from symbolic parts: attributes, truthiness, equality, immutability and refusal of wrong types are asserted.',
'F01': 'Faults are scheduled by the solver harness: each fallible call of the library model either works or returns 0, and every combination along every path is explored. Success without the failed part, a witness record with something the library did not make, half a witness, or a proof object not released is a violation.',
'T01': 'Trees of the bounded shapes are built through the real classes with symbolic leaf scripts and internal key; a verifier written from BIP341 with the Elements tags recomputes leaf hash, path and tweaked key from each control block. Point tweaking is an abstract function; hashes are abstract; both orders of every branch are explored.',
'Z01': 'The model library is installed with and without the proof functions; blinding and unblinding of symbolic data must fail and leave the transaction alone, and `get_rangeproof_info` must hand through the symbolic answer of the library.',
'W01': 'The real encoder runs on symbolic programs; its result must equal a reference encoder of the harness. The checksum is linear over GF(2), and the engine keeps linear conditions eliminated instead of sending them to SAT, so all programs of a length are decided at once.',
'W02': 'The real decoder runs on strings of symbolic characters; it must accept exactly when the reference acceptance predicate holds. Single substitutions are decided for all programs, positions and replacement characters through the linear checksum.',
'W03': 'For symbolic payloads of every class the text is made, compared with a reference text, and read by every concrete and general class under both chains; base58 is an abstract one-to-one coding, bech32 and blech32 are the real code.',
'W04': 'Every pair of source class and target class with symbolic payload and blinding key; the result must be the expected class and payload, or the expected kind of refusal.',
'W05': 'Scripts are compared with the standard templates over symbolic payloads, addresses read back from scripts, and sizes with the length of a really encoded output.',
'W06': 'Like W03 for private keys and extended keys, with every other key class, and the address classes, as readers.',
'P01': 'The recogniser runs on symbolic scripts; its verdict and data must be those of a reference grammar of the harness.',
'P02': 'The unspendable test runs on symbolic scripts of lengths up to beyond the size limit; the arguments the range-proof function receives (minimum, exponent, precision, committed script) are recorded by the model during real blinding.',
'P03': 'A table of consensus numbers in the harness; each constant is pushed into scripts between symbolic pushes and read back.',
'L01': 'Lists of symbolic items of every combination of lengths in bounds; success exactly when all lengths fit, and then the buffer is the concatenation.',
'D01': 'The same operations on the same symbolic data are repeated along sequences of chain selections in which every ordered pair of chains occurs; all answers must be equal. Nested ChainParams blocks with normal and exceptional exit must restore the behaviour.',
'M01': 'The library model calls back, before each call is served, an examiner that knows the C prototypes. It asserts for every argument the declared and the passed type, its width, its length against the lengths announced in the other arguments, and mutability. Amounts, scripts and answers are symbolic; the sizes of the proofs are varied by job.',
'R01': 'The random source hands out symbolic draws that are distinct by construction. After blinding, each secret - taken from the report, from the nonce in the output, and from the recorded library calls - must equal one of the draws, and all of them must be different. Blinding again from the same draws must give the same bytes.',
'X01': 'A two-party scene is blinded from the view of the first party and then, after optional appending and a serialization round trip, from the view of the second. The judge of B01 is applied to each half, the recorded surjection calls of both are compared with the generators of the final transaction, and all bytes of the first party must be unchanged.',
}
