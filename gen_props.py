# writes properties.jsonl (kept so the file can be regenerated/edited comfortably)
import json
F_CORE='elementstx/core/__init__.py'; F_SCR='elementstx/core/script.py'; F_SEC='elementstx/core/secp256k1.py'
F_WAL='elementstx/wallet.py'; F_BL='elementstx/blech32.py'; F_LA='elementstx/liquid_addr.py'; F_INIT='elementstx/__init__.py'
P=[]
def p(id,title,statement,over,text,why,files,mech,observe=None,state=None):
    d=dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
           anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech]))
    if observe: d['anchors']['observe_at']=observe
    if state: d['anchors']['state']=state
    P.append(d)

p('S01','Confidential asset/value/nonce fields: codec, length rules, classification',
 'A confidential asset, value or nonce can only be built from data of length zero, of the explicit length, or of 33 bytes; every other length is refused with an error. Decoding bytes succeeds exactly when the first byte is 0, 1, or one of the two commitment prefixes of that field kind and enough bytes follow, consumes exactly the encoded length, and re-encoding gives back the consumed bytes. A field is reported null, explicit or commitment exactly by its length and prefix, an explicit asset or amount converts back to precisely the asset or signed 64-bit big-endian amount it was built from, and asking a non-explicit field for its explicit content is an error.',
 ['inputs'],'all byte strings of length 0..36 as constructor argument and as decoder input, all assets, all signed 64-bit amounts, for each of the three field kinds',
 'The tests round-trip a few whole transactions; no test presents a wrong prefix, a truncated field, a wrong length or an extreme amount.',
 [F_CORE],[('confidential commitment base class and its three kinds','CConfidentialCommitmentBase, CConfidentialAsset, CConfidentialValue, CConfidentialNonce'),('explicit conversion','to_asset / to_amount / from_asset / from_amount')],['constructor, deserialize, serialize, is_null/is_explicit/is_commitment/is_valid'])

p('S02','Transaction input wire format with issuance and peg-in flags',
 'An input is encoded as previous-transaction hash, little-endian output index with bit 31 set exactly when a non-null asset issuance is attached and bit 30 exactly when it is a peg-in, length-prefixed script, little-endian sequence, and then the issuance fields exactly when an issuance is attached; the coinbase index 0xffffffff never carries flags or an issuance. Decoding inverts this: it recovers hash, masked index, script, sequence, issuance and the peg-in flag and consumes exactly the encoding. An index with either high bit set (other than the coinbase index), or one that its flags would turn into the coinbase index, cannot be encoded, and a flagged input whose issuance is null cannot be decoded.',
 ['inputs'],'all inputs with symbolic hash, 32-bit index, sequence, peg-in flag, script up to a few bytes, null/explicit/committed issuance amounts; all 32-bit wire indices',
 'Tests use a handful of fixed transactions; flag/issuance/coinbase combinations and boundary indices are not enumerated.',
 [F_CORE],[('input (de)serialisation','CElementsTxIn.stream_serialize / stream_deserialize'),('issuance codec','CAssetIssuance'),('flag constants','OUTPOINT_ISSUANCE_FLAG, OUTPOINT_PEGIN_FLAG, OUTPOINT_INDEX_MASK')],['serialize() and deserialize() of inputs'])

p('S03','Output and witness records encode field by field and decode back',
 'A transaction output is encoded as asset, value, nonce, length-prefixed script, in that order; an input witness as issuance-amount range proof, inflation-keys range proof, script witness stack, peg-in witness stack; an output witness as surjection proof, range proof. Decoding the encoding yields an equal object field for field and consumes exactly the encoding, and decoding arbitrary bytes either fails or re-encodes to the consumed bytes. A witness record is null exactly when all its parts are empty.',
 ['inputs'],'all outputs over null/explicit/commitment kinds of each field, all proofs, stacks and scripts of small sizes with symbolic contents, arbitrary byte buffers up to a bound',
 'Tests only contain a few fixed transactions, with particular combinations of proofs and stacks.',
 [F_CORE],[('output codec','CElementsTxOut.stream_serialize / stream_deserialize'),('witness codecs','CElementsTxInWitness, CElementsTxOutWitness'),('null test','is_null of the witness records')],['serialize/deserialize/is_null'])

p('S04','Transactions encode to the consensus format and parse back identically',
 'A transaction encodes to version, one flag byte that is 1 exactly when some input or output witness is non-null, inputs, outputs, lock time, and then - only with flag 1 - one witness record per input and one per output. Parsing these bytes yields a transaction with identical version, inputs, outputs, lock time and witnesses, which encodes to the same bytes. Encoding without witnesses gives the same stream with flag 0 and no witness records.',
 ['inputs'],'all transactions of up to 2 inputs and 2 outputs with symbolic field contents over the shapes of issuance, peg-in, confidential fields and witnesses; all 32-bit versions and lock times',
 'The tests parse a few recorded transactions and re-serialise them; they fix shape and values.',
 [F_CORE],[('transaction codec','CElementsTransaction.stream_serialize / stream_deserialize'),('witness vector codec','CElementsTxWitness'),('null witness test','CElementsTxWitness.is_null')],['CElementsTransaction.serialize / deserialize'])

p('S05','Parsing arbitrary bytes as a transaction is lossless or an error',
 'For every byte string, parsing it as a transaction either fails with an error or yields a transaction whose encoding is exactly that byte string. In particular an unknown flag byte, a witness section in which every record is empty, a truncated transaction and trailing bytes are all refused, and two different byte strings never parse to equal transactions.',
 ['inputs'],'all byte strings up to the bounded length, and all byte strings of bounded longer templates with symbolic flag, counts, prefixes and lengths',
 'The tests only parse valid transactions plus one superfluous-witness case at most; arbitrary malformed input is not sampled.',
 [F_CORE],[('transaction parser','CElementsTransaction.stream_deserialize'),('element parsers','CElementsTxIn/CElementsTxOut/CElementsTxWitness.stream_deserialize')],['CElementsTransaction.deserialize'])

p('S06','Transaction id ignores witnesses and commits to everything else',
 'The transaction id is the double SHA-256 of the flag-0 encoding and is unchanged by any change of any witness; the witness-inclusive hash is the double SHA-256 of the full encoding. Two transactions that differ in version, lock time, any input field (including issuance and peg-in flag) or any output field have different ids, and two that differ in any witness have different witness-inclusive hashes.',
 ['inputs'],'all pairs of transactions of bounded shape with symbolic contents, under collision freedom of SHA-256',
 'Tests compare ids of fixed transactions; that every field is committed to is a statement over all pairs.',
 [F_CORE],[('id computation','CElementsTransaction GetTxid / GetHash through stream_serialize(include_witness)')],['GetTxid, GetHash'])

p('S07','Mutable and immutable forms agree and do not share state',
 'Converting an object between mutable and immutable form (outpoint, input, output, witness, transaction) preserves its encoding, and converting or building an object from parts never lets a later change of the mutable original, of a mutable copy, or of a byte array handed as proof, script or commitment to a constructor of this library alter an immutable object or its encoding, id or hash. Fields of immutable objects cannot be assigned, and a mutable copy can be changed without affecting the mutable object it was taken from.',
 ['inputs','histories'],'all objects of bounded shape with symbolic contents; all single and paired mutations of the source after conversion, in both directions',
 'The tests mutate one particular field of one particular object; aliasing of each nested field after each conversion is a property of histories.',
 [F_CORE],[('conversion','from_instance of input, output, witness records, transaction; to_mutable / to_immutable'),('constructors','__init__ of CElementsTxInWitness, CElementsTxOutWitness, CElementsTxWitness, CElementsTxIn, CElementsTxOut')],['serialize() before and after mutation'])

p('S08','Derived predicates over transactions: fee outputs, issuance count, nullness',
 'An output is a fee output exactly when its script is empty and both its value and its asset are explicit. The issuance count of a transaction is the number of non-null issuance amounts plus the number of non-null inflation-key amounts over all inputs. An output or an issuance is null exactly when all of the fields that define nullness are null, and a transaction witness is null exactly when every record in it is null.',
 ['inputs'],'all outputs, issuances and witnesses over the null/explicit/commitment/ill-formed kinds of each field with symbolic contents',
 'Only single examples are tested; the predicates decide blinding and encoding for every combination of field kinds.',
 [F_CORE],[('predicates','CElementsTxOut.is_fee / is_null, CAssetIssuance.is_null, CElementsTransaction.num_issuances, CElementsTxWitness.is_null')],['the predicates themselves'])

p('H01','Segwit v0 signature hash equals the Elements consensus definition',
 'For every transaction, input index, hash type, script code and input amount commitment, the segwit v0 signature hash is the double SHA-256 of version, hash of prevouts, hash of sequences, hash of issuances, prevout, script code with length, amount commitment, sequence, the issuance of the signed input if any, hash of outputs, lock time and hash type, with the hashes zeroed exactly as the anyone-can-pay, none and single modes prescribe. This includes single mode with no matching output, lock times and sequences with the top bit set, and inputs with and without issuances.',
 ['inputs'],'all transactions of up to 2 inputs and 2 outputs (3 in the thorough tier) with symbolic contents, all input indices, all 8-bit hash types, explicit and committed amounts',
 'Tests contain no comparison of an Elements segwit hash against an independent definition over hash types and shapes; one deviation means unspendable or forgeable coins.',
 [F_SCR],[('segwit v0 hash','RawElementsSignatureHash'),('public entry','CElementsScript.sighash / raw_sighash')],['CElementsScript.sighash'])

p('H02','Legacy signature hash equals the Elements consensus definition',
 'For every transaction, input index, hash type and script code, the legacy signature hash is the double SHA-256 of the transaction with scripts blanked, outputs and inputs pruned and sequences zeroed as the hash type prescribes, encoded without flag byte, without witness and without the issuance and peg-in bits in the outpoint index but with the issuance data, followed by the hash type. Single mode without a matching output and an out-of-range input index behave as the consensus rule requires: an error is signalled and the raw hash is the number one.',
 ['inputs'],'all transactions of up to 2 inputs and 2 outputs with symbolic contents, all input indices including out-of-range, all 8-bit hash types, small symbolic script codes',
 'No existing test checks the legacy hash of an Elements transaction with issuances, peg-ins or confidential fields.',
 [F_SCR,F_CORE],[('legacy path','RawElementsSignatureHash with base signature version'),('for_sighash serialisation','CElementsTransaction.stream_serialize / CElementsTxIn.stream_serialize')],['CElementsScript.sighash / raw_sighash'])

p('H03','Taproot and tapscript signature hashes equal the Elements definition',
 'For every transaction, input index, spent outputs, hash type (or default), annex, genesis block hash and - for tapscript - leaf and code separator position, the Schnorr signature hash is the Elements tagged hash over the genesis hash twice and the prescribed message: hash type, version, lock time, the aggregate hashes of outpoint flags, prevouts, spent assets and amounts, spent scripts, sequences, issuances and issuance proofs unless anyone-can-pay, output and output-witness hashes as prescribed, spend type, the input data or index, annex, single output, leaf data. All variable-length parts are length-prefixed. The tapscript entry point hashes the leaf with leaf version 0xc4.',
 ['inputs'],'all transactions of up to 2 inputs and 2 outputs with symbolic contents and proofs, all valid hash types and default, with and without annex, taproot and tapscript',
 'No test exercises the Schnorr hash at all; equality with the definition is a statement over all transactions and modes.',
 [F_SCR],[('Schnorr hash','ElementsSignatureHashSchnorr'),('tapscript entry','CElementsScript.sighash_schnorr'),('tagged hasher','CoreElementsParams.tap_sighash_hasher / tapleaf_hasher')],['ElementsSignatureHashSchnorr, CElementsScript.sighash_schnorr'])

p('H04','Signature hashes commit to what the hash type says; bad requests are errors',
 'Two signature-hash requests that differ in anything the hash type commits to (version, lock time, own prevout, own sequence, own issuance, amount, script code, and - unless excluded by the mode - other inputs and outputs) give different hashes, and changing what the mode excludes leaves the hash unchanged. Requests that make no sense - Schnorr hash with negative or out-of-range input index, wrong number of spent outputs, wrongly sized genesis, annex or leaf hash, single mode without a matching output, unsupported signature version - are refused with an error that names the problem as a value error, never answered with a hash.',
 ['inputs'],'all pairs of requests over transactions of bounded shape with symbolic contents; all out-of-range arguments within bounds',
 'Commitment is a two-run property over all pairs of transactions; tests never compare pairs.',
 [F_SCR],[('segwit v0 hash','RawElementsSignatureHash'),('Schnorr hash and its argument checks','ElementsSignatureHashSchnorr')],['CElementsScript.sighash, ElementsSignatureHashSchnorr'])

p('B01','Blinding preserves the value balance of the transaction',
 'Whenever blinding succeeds with every requested output and issuance blinded (amounts within the money range, and the derived last factor not zero), the sum of amount times asset blinding factor plus value blinding factor over the blinded inputs and blinded issuances equals the same sum over the blinded outputs modulo the group order, so the commitments balance exactly when the explicit amounts did. The scalars passed to the balancing primitive are exactly those of the blinded inputs, then the issuances, then the outputs, in matching order, and only the last output value blinding factor is derived.',
 ['inputs','configurations'],'all blinding requests of up to 6 inputs and 6 outputs over a list of shapes, with symbolic amounts, assets and blinding factors, over which inputs are blinded and which outputs are to be blinded',
 'The blinding test needs a library that is absent here and covers recorded cases only; the algebra must hold for all values and selections.',
 [F_CORE],[('balancing','blind_transaction: blinds/assetblinds/amounts_to_blind and the blind-sum call')],['BlindingSuccess factors, the resulting commitments'])

p('B02','Whoever holds the blinding key recovers exactly what was blinded',
 'After a successful blinding of positive amounts (zero amounts only to unspendable scripts), unblinding any blinded output with the private key of its blinding public key succeeds and returns the original amount and asset together with the value and asset blinding factors that the blinding result reports for that output, and the value and asset commitments of the output are the commitments to exactly these four quantities. Unblinding with a different key, a different script, or another output\'s range proof fails.',
 ['inputs','configurations'],'all requests of up to 6 inputs and 6 outputs over a list of shapes, with symbolic amounts, assets, factors, scripts and keys, modulo the ideal model of the zero-knowledge library',
 'Needs symbolic values and a model of the proof library; the repository test runs recorded vectors only where the library is present.',
 [F_CORE],[('blinding of outputs','blind_transaction'),('unblinding','unblind_confidential_pair'),('nonce derivation','generate_output_rangeproof_nonce'),('range proof','generate_rangeproof')],['CElementsTxOut.unblind_confidential_pair on outputs of a blinded transaction'])

p('B03','Blinding reports what it did and touches only what it was asked to',
 'A successful blinding result lists one value factor and one asset factor per output, zero for outputs that were not blinded, and the number of blinded outputs and issuances; in strict mode success means that number equals the number requested. (As documented in the code, a last output whose derived value factor is zero counts as blinded and is left as it is; a lone output without blinded inputs and a last issuance without a following blinded output are left unblinded and not counted.) Outputs not selected for blinding, fee outputs, scripts, prevouts, sequences, version, lock time and input witnesses other than the requested issuance proofs are left unchanged, and a request that is inadmissible (fee output, already confidential or null output or issuance amount, invalid key, existing output or issuance proof, issuance key without such an issuance, reissuance with inflation keys, missing, ill-typed or negative data, invalid or too few auxiliary generators, too many keys, immutable transaction) is refused before anything in the transaction is changed.',
 ['inputs','configurations'],'all requests of up to 6 inputs and 6 outputs over a list of shapes and every inadmissible request of a list at every position, with symbolic contents, in strict and non-strict mode',
 'Tests cover successful runs on recorded transactions; the refusal and frame conditions quantify over all request shapes.',
 [F_CORE],[('admission checks and result','blind_transaction, blinding_result'),('frame','assignments to tx.vout / tx.vin / tx.wit')],['returned result and the transaction afterwards'])

p('B04','Surjection proofs are built against exactly the generators a verifier uses',
 'For every blinded output the surjection proof is built over the list of input generators in verifier order - for each input its own generator, then that of its new asset, then that of its reissuance token, then any auxiliary generators - with the asset tags, generators and blinding factors of each position describing the same input, and with the output generator and blinding factor of that very output. The proof verifies against the asset commitments that a verifier reconstructs from the transaction and its inputs.',
 ['inputs','configurations'],'all requests of up to 6 inputs over a list of issuance/reissuance/auxiliary-generator patterns and symbolic assets and factors',
 'Position alignment across inputs, issuances and auxiliary generators is combinatorial; recorded vectors cover few patterns.',
 [F_CORE,F_SEC],[('target lists','blind_transaction: surjectionTargets / targetAssetGenerators / targetAssetBlinders'),('proof construction','generate_surjectionproof'),('array packing','build_aligned_data_array')],['arguments given to the proof library; stored surjection proofs'])

p('B05','Unblinding accepts nothing that does not match the commitments',
 'Whatever the range-proof rewinding returns, unblinding succeeds only if the value is a commitment, the amount is within the money range, the recovered message is exactly an asset and its blinding factor, and the generator recomputed from them equals the generator of the output\'s asset field, and the rewinding was asked for exactly the given proof, commitment, generator, and nonce and script of the output; the returned asset, amount and factors are exactly the rewound ones. What passes all these checks is not refused. Empty range proofs, invalid nonces, explicit values and unparsable commitments yield a failure result with a message, never an exception or success.',
 ['inputs','fault_sequences'],'all outcomes of each library call (failure or success with arbitrary amount, message length, message, factor), all kinds of value, asset and nonce fields',
 'An adversarial sender controls the proof contents; tests only unblind honestly made outputs.',
 [F_CORE],[('unblinding','unblind_confidential_pair'),('result checks','UnblindingSuccess / UnblindingFailure')],['returned result'])

p('B06','Issuances are blinded with the right asset, key, amount and factor',
 'When an issuance amount or inflation-key amount is selected for blinding, it is replaced by a commitment to the same amount under the unblinded generator of the asset or token derived from that input, with a range proof that the holder of the issuance blinding key can rewind to the original amount and asset without a script; the other issuance fields are unchanged. The token used is the confidential one exactly when the inflation keys are blinded, and reissuances use the given entropy and only have an asset part.',
 ['inputs','configurations'],'all single- and two-input requests over issuance, reissuance, asset/token key patterns with symbolic entropy, contract hashes and amounts',
 'Issuance blinding is exercised by at most a few recorded vectors that cannot run here.',
 [F_CORE],[('issuance loop','blind_transaction'),('derivations','generate_asset_entropy, calculate_asset, calculate_reissuance_token'),('unblinding of issuances','unblind_confidential_pair with empty nonce')],['tx.vin[i].assetIssuance and issuance range proofs after blinding'])

p('B07','Deterministic blinding keys are the keyed hash of the script',
 'The blinding key derived from a master blinding key and a script is the private key whose secret is HMAC-SHA256 keyed by the master secret over the script bytes, the same whether requested through the script object, a byte string or a byte array. Different scripts and different master keys give different blinding keys, and a script object of another chain is refused with a type error.',
 ['inputs'],'all master secrets and all scripts up to the bounded length',
 'One or no vector is tested; equality for every script and key needs a symbolic argument.',
 [F_CORE,F_SCR],[('derivation','derive_blinding_key; CElementsScript.derive_blinding_key')],['returned key'])

p('B08','Blinding and unblinding results cannot be misread',
 'Every result reports ok exactly when its error text is empty, failures always carry a non-empty error text, successes an empty one, and using a result as a truth value raises a type error. A successful unblinding result can only hold an amount within the money range and correctly typed fields, and its input descriptor carries exactly the same asset, amount and factors.',
 ['inputs'],'all amounts (signed 64-bit), assets, factors and error texts',
 'Tests look at ok on a few results; the range rule and the descriptor copy quantify over all values.',
 [F_CORE],[('result classes','BlindingSuccess/BlindingFailure/UnblindingSuccess/UnblindingFailure'),('descriptor','UnblindingSuccess.get_descriptor')],['ok, error, bool(), get_descriptor'])

p('A01','Asset entropy, asset ids and reissuance tokens follow the definition',
 'The entropy of an issuance is the SHA-256 midstate over the double SHA-256 of the serialized outpoint and the contract hash, the asset id is the midstate over the entropy and 32 zero bytes, and the token id the midstate over the entropy and the little-endian number 1 (explicit) or 2 (confidential). Different outpoints or contract hashes give different entropies, asset, explicit token and confidential token of one entropy are pairwise different, and inputs of the wrong size are refused.',
 ['inputs'],'all outpoints (32-byte hash and 32-bit index), contract hashes and entropies; lengths other than 32',
 'Tests check at most a few vectors; the derivation must match for every outpoint and contract.',
 [F_CORE],[('derivations','generate_asset_entropy, calculate_asset, calculate_reissuance_token')],['return values'])

p('W01','Blech32 encoding round-trips and equals the reference encoding',
 'For every human-readable prefix of the supported chains, witness version 0..16 and program of admissible length, encoding produces the lower-case string prefix, separator, base-32 data and 12-character checksum of the Blech32 (version 0) or Blech32m (other versions) definition, and decoding that string returns the same version and program. Programs or versions outside the admissible ranges do not encode.',
 ['inputs'],'all programs of every admissible length 2..73 bytes (selected lengths in the quick tier), all versions 0..31',
 'Tests encode a few fixed addresses; the checksum and bit regrouping must be right for every program.',
 [F_LA],[('codec','encode, decode'),('checksum','blech32_polymod, blech32_create_checksum, blech32_verify_checksum'),('regrouping','convertbits')],['elementstx.liquid_addr.encode / decode'])

p('W02','Blech32 decoding accepts only canonical, checksum-valid strings',
 'A string decodes for a given prefix only if it has one letter case, printable characters, the right prefix, a last separator followed by at least twelve alphabet characters, a checksum equal to the constant for its witness version, version at most 16, admissible program length, and zero padding of fewer than 5 bits; and then re-encoding the decoded version and program gives the lower-case form of the string. Everything else is rejected by returning no result, never by an unexpected exception or a wrong program, and substituting any one character of a valid address by another alphabet character is always detected.',
 ['inputs'],'all strings over the 7-bit characters of bounded length, all strings of address length with correct prefix, and all single character substitutions in encoded strings',
 'Tests cover a few invalid strings; canonicity and error detection quantify over all strings.',
 [F_LA,F_BL],[('decoder','blech32_decode, decode, convertbits'),('address data class','CBlech32Data.__new__')],['elementstx.liquid_addr.decode, CBlech32Data subclasses'])

p('W03','Confidential addresses round-trip through text and keep their kind and chain',
 'For every address class of both chains and every payload, the text form of the address parses back - through the concrete class and through the general address class of that chain - to the same class and payload. Text of one chain is never accepted by the address classes of the other chain, and text of one address kind is not accepted by the class of another kind.',
 ['inputs','configurations'],'all payloads of every confidential and unconfidential address class of both chains',
 'Tests use a few addresses per class; round-trip and separation quantify over payloads and class pairs.',
 [F_WAL,F_BL],[('address classes and dispatch','CCoinConfidentialAddress and its descendants; CBlech32Data.blech32_match_progam_and_version'),('prefixes','base58_prefix, blech32_hrp, bech32_hrp')],['str(), constructors'])

p('W04','Confidential and unconfidential forms convert without loss',
 'Combining an unconfidential address with a valid blinding public key gives the confidential address of the same kind and chain, whose unconfidential form is the original address and whose blinding key is the given key. An invalid blinding key, an address of another chain, a confidential address as source of an incompatible class, or a mismatching target class is refused with an error.',
 ['inputs','configurations'],'all payloads and blinding keys for every address kind of both chains and every target class',
 'Tests convert a few addresses; the class matrix with arbitrary payloads is not covered.',
 [F_WAL],[('conversion','CCoinConfidentialAddress.from_unconfidential, to_unconfidential, blinding_pubkey')],['from_unconfidential / to_unconfidential / blinding_pubkey'])

p('W05','Confidential addresses pay to the same script as their unconfidential form',
 'A confidential address yields the same output script and the same redeem script as its unconfidential form, that output script is the standard one for the kind and payload, and parsing it back as an address gives the unconfidential form. The reported output size of an address is the length of the encoding of an output with its script, with three 33-byte commitments for confidential and an explicit value with null asset and nonce for unconfidential addresses.',
 ['inputs','configurations'],'all payloads of every address kind of both chains',
 'A wrong script loses funds; tests check few addresses and sizes only per class.',
 [F_WAL],[('scripts','to_scriptPubKey, to_redeemScript'),('sizes','get_output_size')],['to_scriptPubKey / to_redeemScript / get_output_size'])

p('P01','Peg-out scripts are recognised exactly by their grammar',
 'A script is a peg-out exactly when it parses as the return opcode followed by a push of exactly 32 bytes and a push of at least one byte, whatever follows; the data returned is exactly those two pushes, the second as a script of the same class. Any other script, including malformed or truncated ones, gives no peg-out data and no exception.',
 ['inputs'],'all scripts up to the bounded length, and all longer scripts of bounded templates with symbolic opcodes and contents',
 'Tests hold a few scripts; the recogniser must be exact for every byte string.',
 [F_SCR],[('recogniser','CElementsScript.get_pegout_data, is_pegout')],['get_pegout_data, is_pegout'])

p('P02','Unspendability and the range-proof minimum agree',
 'A script is unspendable exactly when it is empty, starts with the return opcode, or exceeds the script size limit if the underlying library says so; the range proof of an output is requested with minimum value 0 exactly for unspendable scripts and 1 otherwise, commits to exactly that script, and uses the default exponent and precision of the Elements chains unless overridden, whichever of the Elements chains is selected.',
 ['inputs','configurations'],'all scripts up to the bounded length, all custom exponent/precision arguments, both chains selected',
 'A proof with the wrong minimum reveals or invalidates an amount; tests never observe the arguments passed to the proof library.',
 [F_SCR,F_CORE],[('unspendable test','CElementsScript.is_unspendable'),('range proof request','generate_rangeproof')],['arguments passed to the proof library'])

p('P03','Elements opcodes have the consensus numbers',
 'Each Elements-specific opcode constant has the number that the Elements consensus rules assign to it, no two differently named ones share a number, and pushing such an opcode into a script produces that single byte which iterates back as the same opcode.',
 ['inputs'],'all named Elements opcodes in all scripts of bounded length around them',
 'No test looks at the opcode numbers.',
 [F_SCR],[('opcode constants','OP_* constants of elementstx.core.script')],['opcode constants, CElementsScript construction and iteration'])

p('L01','Arrays handed to the proof library hold exactly the given fixed-size items',
 'Packing a list of byte strings for the proof library succeeds only if every item has exactly the expected length, and the result is then their concatenation in order; any list with an item of another length is refused.',
 ['inputs'],'all lists of up to 4 items of lengths up to 2 times the expected length (both expected lengths)',
 'A misaligned array makes native code read beyond or shifted; no test exercises mismatched items.',
 [F_SEC],[('packing','build_aligned_data_array')],['build_aligned_data_array'])

p('D01','Results do not depend on which chain is currently selected',
 'Parsing, encoding and converting Elements transactions, ids, signature hashes, blinding and unblinding, asset derivations, confidential fields, and everything the concrete address classes of a chain and its general address class do, give the same result whichever of the Elements chains is selected, and generic classes resolve to the Elements classes of the selected chain. Selecting another chain (also one of Bitcoin), or leaving a ChainParams block normally or by an exception, and coming back leaves behaviour unchanged.',
 ['configurations','histories'],'all sequences of up to 3 chain selections, with symbolic transaction contents',
 'The tests select one chain per test case; independence across selections is a property of configurations and histories.',
 [F_CORE,F_WAL,F_INIT,F_SCR],[('dispatch','CoreElementsClassDispatcher, WalletElementsClassDispatcher, ElementsParams')],['same call under different chain selections'])

p('F01','A failing call of the proof library is never reported as success',
 'Whichever calls of the confidential-transaction library report failure while a transaction is blinded or an output is unblinded, no success is reported for the affected output: the call raises an error or returns a failure result with a message, and only an output whose surjection proof cannot be started may, in non-strict mode, be left out of the count. No witness record ever holds a proof that the library did not produce, an output has either both of its proofs or none, every surjection proof object obtained from the library is released whatever happened, and without a failing call blinding succeeds.',
 ['faults','inputs'],'every subset of failing library calls while blinding transactions of bounded shapes (strict and non-strict) and while unblinding any committed output, with symbolic contents and symbolic answers of the library',
 'The tests never see the library fail: with valid inputs it does not.',
 [F_CORE],[('surjection proof','generate_surjectionproof'),('range proof','generate_rangeproof'),('blinding','CElementsTransaction.blind, blind_transaction'),('unblinding','unblind_confidential_pair')],['result of blind / unblind_confidential_pair, witness records, library calls'])

p('T01','Taproot outputs built for Elements chains can be spent by the Elements rules',
 'Under either Elements chain the tagged hashers for taproot leaves, branches, tweaks and signatures use the Elements tags and the default leaf version is 0xc4. For every script tree, every leaf script and every internal key: the output key of the tree, and the address and script made from it, commit to the key and tree; and for every leaf the script with control block given out verifies by the rules of BIP341 with the Elements tags - leaf version, parity bit, internal key and path lead to that output key. A key-path address commits to the key alone, and an invalid internal key is refused.',
 ['inputs','configurations'],'all internal keys, all leaf script contents and leaf versions for the bounded tree shapes, both chains, with the generic and the Elements tree class',
 'No test builds a taproot tree or spends one under Elements rules; one wrong tag or version makes coins unspendable.',
 [F_CORE,F_SCR,F_WAL],[('tagged hashers and leaf version','CoreElementsParams'),('tree class','TaprootElementsScriptTree'),('addresses','P2TRElementsAddress and its Liquid counterpart')],['control blocks, output keys, addresses and scripts of script trees'])

p('W06','Private and extended keys round-trip through text and keep kind and chain',
 'The text form of every private key, extended private key and extended public key of the Elements chains carries the prefix of its class and reads back, through the same class and through the general key class of the selected chain, to a key of the same content. Text of another kind, text of extended keys of another chain, and payloads of the wrong length or without a valid key are refused, key text is never accepted as an address, and neutering an extended private key gives the extended public key of the same chain.',
 ['inputs','configurations'],'all keys, chain codes, depths, fingerprints and child numbers of every key class of both chains under both chain selections; every payload of 0..80 bytes under every prefix',
 'Tests read a few fixed keys; round-trip and separation quantify over contents and pairs of classes.',
 [F_WAL],[('key classes','CElementsKey, CElementsExtKey, CElementsExtPubKey and their Liquid counterparts'),('dispatch','WalletElementsClassDispatcher, WalletElementsLiquidV1ClassDispatcher')],['str(), constructors, neuter'])

p('Z01','Without the proof library nothing is blinded, unblinded or changed',
 'When the loaded library lacks the functions for confidential transactions, blinding and unblinding fail (by an error or a failure result with a message) without changing the transaction beyond adding empty witness records, and asking for range proof parameters is an error. When it has them, the parameters reported for a range proof are exactly those the library gives for exactly these proof bytes, and none when the library cannot read it. The library is loaded from the default or the configured path, and is recognised as capable exactly when it has the functions.',
 ['inputs','configurations'],'all transactions of bounded shapes, all committed outputs, all range proof contents and library answers, libraries with and without the functions, default and custom paths',
 'The tests run with one installed library, and skip what needs another.',
 [F_CORE,F_SEC,F_INIT],[('capability test','secp256k1.cap.has_zkp'),('library loading','elementstx.core.secp256k1'),('range proof parameters','CElementsTxOutWitness.get_rangeproof_info')],['blind, unblind_confidential_pair, get_rangeproof_info'])

p('M01','Calls of the proof library pass memory and integers the way its functions take them',
 'Every call of the confidential-transaction library passes, for each pointer, memory that covers everything the function reads or may write: generators, commitments, keys, seeds and messages of the fixed sizes, arrays of the announced number of items, proofs and scripts of the announced length, output buffers at least as long as the announced capacity. Nothing that Python treats as immutable is written to, a null pointer goes only with the length zero where the function allows it, integers and objects behind pointers have the width of the C type so that no amount, length or result is truncated, and contexts and proof objects are live. Proofs of any length that the library may produce are stored whole and without trailing buffer content.',
 ['inputs'],'all transactions of bounded shapes with symbolic amounts, scripts and keys and range and surjection proofs from short ones to the largest sizes, all unblinding requests with any answer of the library, range proofs of 0 to 5134 bytes',
 'A buffer that is too short or a truncated amount works on the small values of the tests and corrupts memory, or money, on others.',
 [F_CORE,F_SEC],[('function types','_set_zkp_func_types'),('blinding','blind_transaction, blinded_asset, create_value_commitment, generate_rangeproof, generate_surjectionproof'),('unblinding','unblind_confidential_pair'),('range proof parameters','CElementsTxOutWitness.get_rangeproof_info')],['arguments of the library calls'])

p('R01','Every secret of a blinding is a draw of its own from the random source',
 'When a transaction is blinded, the asset factor of every blinded output, the value factor of every blinded output but the last, the factor of every blinded issuance part, the ephemeral key of every output and the seed of every surjection proof are 32-byte draws from the given random source (by default the one of the operating system), and no draw serves twice - also when outputs share asset, amount, script or recipient. So no two outputs have the same range proof nonce, and the same draws give the same transaction.',
 ['inputs'],'all draws and all contents of transactions of bounded shapes, with different recipients and one recipient, with the given and the default source',
 'Reused or predictable randomness gives a valid transaction that every test accepts, and no privacy.',
 [F_CORE],[('factors','blind_transaction'),('ephemeral keys','generate_output_rangeproof_nonce'),('surjection seed','generate_surjectionproof')],['blinding factors, nonces, arguments of the library calls'])

p('X01','A transaction blinded by two parties in turn is as good as one blinded by one',
 'When two parties blind a transaction one after the other - each knowing only its own inputs and blinding only its own outputs, with auxiliary generators for the inputs of the other, whatever stands in that list for its own inputs, and whether the first one already has the inputs and outputs of the second or these are appended later, with or without witness records - both succeed. The second leaves outputs, issuances and proofs of the first as they are, the blinding factors of each party balance, every surjection proof of both is made against the generators of the final transaction in their order, and each recipient can open its output.',
 ['inputs','histories'],'all amounts, assets, factors, keys, scripts, draws and placeholder generators for bounded shapes of two-party transactions, passed on as object or as bytes',
 'The tests blind one recorded two-party transaction; composition for other orders, issuances and shapes is not run.',
 [F_CORE],[('auxiliary generators and unknown inputs','blind_transaction'),('surjection targets','surjectionTargets, targetAssetGenerators, targetAssetBlinders')],['transaction after both blindings, library calls'])

with open('/verif/properties.jsonl','w') as f:
    for d in P: f.write(json.dumps(d)+'\n')
print(len(P))
