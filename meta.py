#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the texts below, for the properties that props.py explores."""
import json, os
from props import PROPS
V = os.path.dirname(os.path.abspath(__file__))
AUTH = 'lib/src/signed_video_h26x_auth.c'
SIGN = 'lib/src/signed_video_h26x_sign.c'
COM = 'lib/src/signed_video_h26x_common.c'
TLV = 'lib/src/signed_video_tlv.c'
REP = 'lib/src/signed_video_authenticity.c'
OSSL = 'lib/src/signed_video_openssl.c'
NL = 'lib/src/signed_video_h26x_nalu_list.c'
LEG = 'lib/src/legacy/legacy_h26x_auth.c'
LEGT = 'lib/src/legacy/legacy_tlv.c'
LEGC = 'lib/src/legacy/legacy_h26x_common.c'
VEN = 'lib/vendors/axis-communications/sv_vendor_axis_communications.c'
THR = 'lib/plugins/threaded-signing/plugin.c'
UNT = 'lib/plugins/unthreaded-signing/plugin.c'

M = {}


def prop(pid, title, statement, over, text, why, files, mech):
    M[pid] = dict(id=pid, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech]))


prop('P01', 'Altered pictures are never reported authentic',
     'If any byte of a signed picture unit is changed, or the unit is extended or cut short, before it reaches the validating side, that unit is never marked authentic and no report gives the verdict OK for the GOP it belongs to. '
     'From the second GOP on, the change is flagged in a report and stays flagged in the overall verdict. This holds at GOP level and frame level, for both codecs and every supported hash and signature algorithm.',
     ['inputs', 'histories', 'configurations'], 'every stream shape, every altered unit, byte position and value, every authenticity level, codec and algorithm',
     'Tests alter one hand-picked byte in one hand-picked stream; a hash that leaves out a byte, or a verdict that ignores one position, survives them.',
     [AUTH, COM, OSSL, NL], [('hash comparison', AUTH + ': verify_hashes_*'), ('unit hashing', COM + ': hash_and_add*'), ('verdict', REP)])
prop('P02', 'Dropped, inserted, reordered or replayed pictures are detected',
     'Whatever pictures are removed, inserted, reordered, replayed or substituted between signing and validation, the units marked authentic are units that were signed, in the order they were signed and each at most once per GOP. '
     'A report gives the verdict OK only when every picture of the GOPs it vouches for was received, and an overall verdict of OK means that no picture is missing or foreign between the authentic ones.',
     ['histories', 'inputs', 'configurations'], 'every stream shape and every manipulation of its sequence of units',
     'The number of manipulations of even a short stream is far beyond what hand-written tests enumerate, and each interacts differently with where signatures arrive.',
     [AUTH, NL, REP], [('matching received units to the signed hash list', AUTH + ': verify_hashes_with_hash_list'), ('linked hashes', COM + ': update_linked_hash'), ('missing units', NL)])
prop('P03', 'A tampered signature message never vouches for anything it did not sign',
     'If any byte of a signature SEI is changed before it reaches the validating side, no report gives pictures, metadata or an OK verdict that the signer did not produce. '
     'Any change within the signed part, or of the signature itself, prevents the verdict OK for the GOP it covers.',
     ['inputs', 'configurations'], 'every byte position of a SEI and every value at that position, any level and codec',
     'A SEI has hundreds of bytes with structure of their own; tests flip a few fixed positions.',
     [AUTH, TLV, COM], [('signature check', AUTH + ': verify_signature / prepare_for_validation'), ('decoding', TLV), ('hashed range', COM + ': parse_nalu_info')])
prop('P04', 'Authentic streams validate as authentic',
     'A stream delivered exactly as it was signed, with its SEIs in place, gives the verdict OK in every report and overall, marks every covered picture authentic, and reports nothing missing and no key change. '
     'This holds for every stream shape and for every supported setting on the signing side: authenticity level, codec, hash and signature algorithm, emulation prevention, metadata recurrence, golden SEI, key outside the stream, maximum SEI size, and end of stream (also when signing continues after it).',
     ['inputs', 'histories', 'configurations'], 'every sequence of pictures and other units, every setting, every hash and signature value',
     'Tests sign a few streams with real keys: rare hash, signature or length values, unusual GOP shapes and combinations of settings are never met.',
     [SIGN, AUTH, TLV, COM, REP], [('signing', SIGN + ': generate_sei_nalu'), ('validating', AUTH + ': validate_authenticity')])
prop('P07', 'Lost signatures and lost GOPs are noticed, never papered over',
     'When a signature SEI, or a whole GOP with its SEI, does not arrive, the pictures it covered are not reported authentic unless they are covered by another received signature, and the loss shows in the report that follows. '
     'A replayed SEI never makes other pictures authentic, and GOPs that arrive intact later are still recognised.',
     ['histories', 'fault_sequences'], 'every stream shape and every pattern of lost or replayed SEIs within the bound',
     'Tests remove one particular SEI from one particular stream.',
     [AUTH, REP, NL], [('lost SEI detection', AUTH + ': detect_lost_sei'), ('linked hash', COM)])
prop('P05', 'Only positively verified signatures vouch for pictures',
     'Whatever the outcome of each signature verification, a report says OK only if every signature it rests on was positively verified: a signature that does not match, and a verification that ends with an error, both count as not verified. '
     'A failed verification after the stream has been recognised stays visible in the overall verdict.',
     ['fault_sequences', 'histories'], 'every sequence of verification outcomes (success, mismatch, error) over every stream shape, with lost SEIs',
     'Tests use real signatures, for which errors of the verification itself practically never occur at the interesting points.',
     [AUTH, OSSL, NL], [('verification result', OSSL + ': openssl_verify_hash'), ('use of the result', AUTH + ': verify_hashes_with_sei, validate_authenticity')])
prop('P06', 'A change of signing key never goes unnoticed',
     'Once a stream is being validated with one public key, signatures of any other key are not accepted silently: the change of key is announced in the report, that report is not OK, and the overall verdict remembers both from then on. '
     'If the key was provided beforehand, or is missing altogether, only signatures of the provided key make anything authentic.',
     ['histories', 'configurations'], 'every switch between streams signed with different keys, at every position, with the key inside or outside the SEIs, every recurrence of metadata',
     'The switch can happen at any unit, in any GOP shape, with keys repeated at any interval; tests try one or two.',
     [TLV, AUTH, REP], [('received key', TLV + ': decode_public_key'), ('verdict', AUTH + ': validate_authenticity'), ('accumulation', REP + ': update_accumulated_validation')])

prop('P08', 'No input unit can crash, corrupt or stall a session',
     'Whatever bytes are handed over as a video unit, to the validating side, to the signing side or to a helper function, the call returns with a result, reads and writes only memory it owns, and leaves the session usable. '
     'Nothing becomes authentic because of it: without a genuine signature no report says OK and no unit is marked authentic.',
     ['inputs', 'histories'], 'every content of a unit, at every point of a session',
     'Memory errors hide behind particular byte values and lengths that well-formed test streams never contain.',
     [COM, AUTH, SIGN, TLV, LEGC], [('unit parsing', COM + ': parse_nalu_info'), ('entry points', AUTH + ': signed_video_add_nalu_and_authenticate'), ('helpers', COM + ': signed_video_parse_sei')])
prop('P09', 'No signature message can crash, corrupt or stall a session',
     'A signature SEI with arbitrary content, whether in the current or the legacy format, is either decoded or rejected: decoding stays within the received bytes, ends, and leaves no dangling or half-updated state behind. '
     'Content that was not signed by the key in use never leads to the verdict OK.',
     ['inputs', 'histories'], 'every content of every information element, every combination of lengths, at every point of a session',
     'The decoder is a set of nested length-prefixed formats; the lengths that matter disagree with the data, which real signers never produce.',
     [TLV, LEGT, AUTH, LEG, VEN, OSSL], [('decoding', TLV + ': tlv_decode, tlv_find_tag'), ('legacy decoding', LEGT), ('vendor data', VEN)])


prop('P10', 'Product information and version arrive as they were set',
     'The product information set on the signing side, and the version of the framework it runs, are delivered unchanged in every report of an authentic stream. Strings longer than 254 characters are cut there and empty or absent ones arrive empty.',
     ['inputs', 'configurations'], 'every string length and character, every field, every way of sending metadata',
     'Tests use one set of short strings.', [TLV, SIGN, AUTH, REP], [('product info', TLV + ': encode/decode_product_info'), ('version', TLV + ': encode/decode_general'), ('transfer', REP + ': transfer_product_info')])
prop('P11', 'Every SEI produced is a well-formed unit carrying its own signature',
     'Whatever metadata, keys, digests and signatures it holds, each SEI produced is a correct user data SEI of its codec: the declared sizes are exact, it contains no start code or forbidden byte sequence when emulation prevention is on, it ends with the stop bit, and writing it stays within its memory. '
     'It carries the signature made for it, which covers all of it up to the signature element. When emulation prevention is left to the encoder, the stream validates after the encoder applied it.',
     ['inputs', 'configurations'], 'every content length, every signature and digest value, attestation bytes, both codecs, all settings',
     'Emulation prevention and size fields depend on byte patterns and lengths that real keys and hashes produce very rarely.', [SIGN, TLV, COM],
     [('assembling', SIGN + ': generate_sei_nalu, get_sign_and_complete_sei_nalu'), ('emulation prevention', TLV + ': write_byte / read_byte'), ('parsing', COM + ': parse_nalu_info, hash_and_add')])
prop('P29', 'Nothing a session allocated outlives it',
     'Whatever was done with a session - signing, validating disturbed or hostile streams, refused calls, changed settings, resets - once it and the reports taken from it are freed, all memory and all cryptographic objects it used are given back.',
     ['histories', 'inputs', 'configurations'], 'every history, hostile unit and setting within the bounds of the named properties',
     'Leaks hide on error paths and in unusual orders of calls; leak checkers see only the runs that tests make.', [SIGN, AUTH, COM, TLV, OSSL, NL, REP, VEN, LEG],
     [('freeing a session', COM + ': signed_video_free'), ('cryptographic handle', OSSL + ': openssl_free_handle'), ('reports', REP + ': signed_video_authenticity_report_free')])
prop('P31', 'A generated key is complete, new, and where it was asked for',
     'When generating a private key succeeds, a complete new key of the kind asked for is in memory, in the file of the given directory, or in both, the same in both, and can be used for signing right away. '
     'When anything fails - memory, the file system, the cryptographic library - the failure is returned, no key is delivered, no incomplete key is left in the file, and no other file is touched.',
     ['inputs', 'fault_sequences', 'configurations'], 'every kind of key, directory form, combination of outputs, existing file, and every single failing call',
     'Tests generate keys where nothing fails; a full disk or lack of memory at one particular call is never met.', [OSSL],
     [('generating', OSSL + ': signed_video_generate_*_private_key'), ('writing', OSSL + ': write_private_key_to_file, write_private_key_to_buffer, get_path_to_key')])
prop('P32', 'Timestamps arrive exactly as given',
     'The timestamp given with the picture that completes a GOP is the one reported for that GOP, bit for bit, and no timestamp is reported when none was given. The overall verdict carries the first and the last timestamp of the session.',
     ['inputs', 'histories'], 'every 64-bit timestamp, every pattern of present and absent timestamps',
     'Tests use one timestamp value.', [TLV, SIGN, AUTH, REP], [('timestamp', TLV + ': encode/decode_general'), ('report', AUTH + ': update_validation_result / accumulated timestamps')])


prop('P12', 'SEIs are delivered once, in order, each with its own signature',
     'Whatever the order in which pictures are added, signatures become available or fail, and SEIs are asked for, every SEI whose signature was made is delivered exactly once, oldest first (latest first when taken as units to prepend), complete and with its own signature. '
     'The announced size is that of the SEI delivered next, the number of pending ones is exact, a peeked unit that a SEI must not precede holds SEIs back, and pictures are refused without effect while completed SEIs wait. A failed signature is reported and gives up only the SEI it belongs to.',
     ['histories', 'schedules', 'fault_sequences'], 'every sequence of operations up to the bound and every time at which signatures become available or fail',
     'The moment a signature arrives relative to the calls of the application is arbitrary, and a test fixes one.', [SIGN, UNT, THR],
     [('queue', SIGN + ': sei_data_buffer, complete_sei_nalu_and_add_to_prepend'), ('fetching', SIGN + ': signed_video_get_sei, signed_video_get_nalu_to_prepend')])
prop('P13', 'Units signed in parts, or after a refusal, are signed like whole ones',
     'Handing over a unit in parts, in buffers that are reused, leads to exactly the same signatures as handing it over whole. A unit or part that was refused can be handed over again, and the result is as if it had not been refused.',
     ['inputs', 'histories'], 'every way of splitting a unit into up to three parts, every unit of the stream, refusals before any part',
     'Tests split at one position.', [SIGN, COM], [('parts', SIGN + ': signed_video_add_nalu_part_for_signing_with_timestamp'), ('hashing in parts', COM + ': hash_and_add')])
prop('P14', 'Both sides agree on what is a picture, in every transport form',
     'Start codes of three or four bytes, or none, and zero bytes after a unit make no difference to signing or validation. Slices of intra pictures and of the predicted pictures the framework covers are signed, a GOP starts at the first slice of an intra picture, and any other kind of unit can be added, altered or removed without effect.',
     ['inputs', 'configurations'], 'every unit header the standards allow, every transport form on either side',
     'Tests use a handful of header values.', [COM, SIGN, AUTH], [('unit parsing', COM + ': parse_nalu_info, parse_h264_nalu_header, parse_h265_nalu_header')])


prop('P15', 'The overall verdict is the worst verdict, and a report is a snapshot',
     'The overall verdict of a session is the worst of the verdicts reported since the first real one; a changed key, a failed key validation and the first timestamp are never forgotten. '
     'A delivered report does not change afterwards, a fetched one says the same as a delivered one, and not asking for some of the reports does not change the others.',
     ['inputs', 'histories'], 'every sequence of verdicts that manipulated streams within the bounds can lead to, every set of consecutive units for which no report was asked',
     'The overall verdict depends on the whole history of verdicts.', [REP, AUTH], [('accumulation', REP + ': update_accumulated_validation'), ('report copies', REP + ': signed_video_get_authenticity_report, transfer_authenticity')])
prop('P16', 'Every received unit is accounted for in the reports',
     'Reports describe the received units in the order received, with the right type, one mark each; a unit stays in the reports until it is validated, and units are reported missing separately. '
     'The overall report counts every received unit, and each as either validated or pending (all pending as long as no signature was seen, and what needs no validation not counted if dropped until then); the number of pending units of a validation is the number of pending marks, OK implies that as many pictures were received as expected, and this number is that of the units validated.',
     ['inputs', 'histories'], 'every stream and manipulation within the bounds, after every single unit',
     'Tests compare totals of a few fixed streams.', [REP, AUTH, NL], [('list of units', NL + ': h26x_nalu_list_get_str, h26x_nalu_list_clean_up'), ('counts', REP + ': signed_video_get_authenticity_report')])


prop('P17', 'Wrong calls are refused without effect; allowed changes keep the stream valid',
     'A call with a missing or out-of-range parameter, an unusable key, an unknown algorithm, or one that is not allowed at that point of the session is refused with its documented code, and the session continues exactly as if it had not been made. '
     'Settings that may be changed while signing (level, metadata interval, emulation prevention, key inclusion, size limit, product information, the same key again, end of stream) can be changed at any point and the stream still validates as authentic.',
     ['inputs', 'histories', 'configurations'], 'every wrong call at every point of the session, every pair of changes at every pair of points',
     'A test makes a wrong call once and seldom checks what the session does afterwards.', [SIGN, AUTH, COM, OSSL], [('gates', SIGN + ': setters'), ('keys', OSSL + ': openssl_private_key_malloc'), ('validating side', AUTH + ': signed_video_set_public_key')])
prop('P18', 'Frame-level information is left out exactly when it does not fit',
     'At frame level every GOP of at most the supported length is signed together with one digest per picture, unless the SEI would exceed the size limit with them, and at GOP level never. GOPs that are too long, or whose SEI would be too large, fall back to GOP level for that GOP only, and still validate as authentic.',
     ['inputs', 'configurations', 'histories'], 'every size limit, every sequence of GOP lengths within the bounds',
     'The fallback depends on the exact size of the SEI, which tests sample at one value.', [SIGN, COM, TLV], [('fallback', SIGN + ': generate_sei_nalu'), ('hash list', COM + ': check_and_copy_hash_to_hash_list')])


prop('P20', 'A reset session starts afresh, and sessions are independent',
     'After a reset at any point, a validating session returns and reports exactly what a new one would, whatever it had seen before; a signing session signs every GOP from then on as the start of a stream that validates on its own. '
     'Sessions used in any interleaving do not influence each other.',
     ['histories', 'configurations'], 'every point of reset in every stream within the bounds, complete or manipulated, every point at which the next stream is entered, every interleaving of two sessions',
     'State that survives a reset shows only for particular combinations of where the old stream ended and where the new one is entered.',
     [COM, AUTH, SIGN, LEGC], [('reset', COM + ': signed_video_reset'), ('session state', 'lib/src/signed_video_internal.h')])


prop('P24', 'A public key counts as validated only if the named device attested it',
     'The public key is reported as validated exactly when the stream names the vendor, and its attestation is a genuine signature, by the device whose certificate leads to the vendor root and carries the serial number named in the stream, over exactly the key in use. '
     'Anything else is reported as not validated, from then on, while the verdict on the video is unaffected; without attestation, or without the key in the stream, the validation of the key is reported as not feasible.',
     ['inputs', 'histories', 'configurations'], 'every byte of the attestation, every wrong combination of key, device, certificate and serial number, every sequence of two signers, every outcome of each verification',
     'Tests have no genuine attestation and try one invalid one.', [VEN, AUTH, TLV, REP],
     [('attestation', VEN + ': verify_axis_communications_public_key, deserialize_attestation'), ('certificates', VEN + ': verify_and_parse_certificate_chain'), ('report', AUTH + ': prepare_for_validation')])


prop('P25', 'With a golden SEI, only its verified key makes anything authentic',
     'When the key is sent once in a golden SEI, generated beforehand or at any point before the first ordinary SEI, the stream validates as authentic. If any byte of the golden SEI was changed, or it belongs to another signer, the golden SEI is not marked authentic and nothing in the stream is reported OK. '
     'Golden SEIs of another signer later in the stream never make a change of key go unnoticed.',
     ['inputs', 'histories'], 'every place of the golden SEI, every byte and value of it, every arrangement of golden SEIs of two signers',
     'Tests place one untouched golden SEI at the very start.', [AUTH, SIGN, COM],
     [('golden SEI', AUTH + ': prepare_golden_sei'), ('result', AUTH + ': maybe_validate_gop'), ('generation', SIGN + ': signed_video_generate_golden_sei')])


prop('P21', 'Running out of memory is announced and never makes a stream authentic',
     'Whichever memory allocation fails, no call crashes or leaks; a failure is announced by an error, or has no effect other than a less favourable verdict. '
     'A validating session never reports an altered, incomplete or forged stream as authentic because of it, and both sides work correctly again from the next GOP on; a private key that could not be set leaves the former one in use.',
     ['fault_sequences', 'inputs', 'histories'], 'every allocation in every session within the bounds failing',
     'Tests never make an allocation fail.', [AUTH, SIGN, COM, OSSL, VEN, UNT],
     [('creating', AUTH + ': signed_video_create'), ('storing units', NL + ': h26x_nalu_list_append'), ('SEIs', SIGN + ': generate_sei_nalu'), ('keys', OSSL + ': openssl_private_key_malloc')])
prop('P22', 'Failures of the cryptographic library are announced and never hide an attack',
     'Whichever call into the cryptographic library fails, no call crashes or leaks; a failure is announced by an error, or has no effect other than a less favourable verdict. '
     'A validating session never reports an altered, incomplete or forged stream as authentic because of it, and both sides work correctly again from the next GOP on; a private key that could not be set leaves the former one in use.',
     ['fault_sequences', 'inputs', 'histories'], 'every library call in every session within the bounds failing',
     'Tests never make the cryptographic library fail.', [OSSL, AUTH, SIGN, VEN, UNT],
     [('library calls', OSSL + ': all functions'), ('GOP hash', COM + ': update_gop_hash'), ('signing plugin', UNT + ': sv_signing_plugin_sign')])


prop('P19', 'Threaded signing delivers every signature to its own SEI in any schedule',
     'With the threaded signing plugin, with a thread per session or one thread common to all sessions, every SEI is delivered in order, complete and with the signature of its own content, to the session it belongs to, however the threads are scheduled; '
     'once the signing thread has nothing left to do, every SEI can be fetched. Sessions and the plugin can be closed at any time without blocking, leaking or touching freed memory, there are no data races, and a failure to sign loses only the SEI concerned and is announced.',
     ['schedules', 'histories', 'fault_sequences'], 'every schedule within the preemption bound of every sequence of operations, every point of failure',
     'Tests run the threads in whatever schedule the machine happens to choose.', [THR, SIGN],
     [('worker threads', THR + ': local_worker_thread, central_worker_thread'), ('requests', THR + ': sign_hash'), ('signatures', THR + ': get_signature'), ('sessions', THR + ': central_setup, central_teardown, buffer_reset')])


prop('P26', 'Streams in the legacy format are authenticated as they were',
     'A stream signed in the format used before the current one validates as authentic, whichever of its variants was used. If units of it are altered, lost, inserted, repeated, reordered or replayed, its SEIs changed, its key replaced, or its signatures do not verify, the affected units are not marked authentic and the overall verdict is not OK.',
     ['inputs', 'histories'], 'every stream, transport operation, changed byte and verdict of the signature check within the bounds',
     'The repository no longer contains a signer for the legacy format; its tests have no legacy streams to tamper with.', [LEG, LEGT, LEGC],
     [('choice of format', AUTH + ': signed_video_add_h26x_nalu'), ('hash list', LEG + ': legacy_verify_hashes_with_hash_list'), ('GOP hash', LEG + ': legacy_verify_hashes_with_gop_hash'), ('verdict', LEG + ': legacy_validate_authenticity')])
prop('P27', 'Validating a legacy stream survives hostile input, faults and resets',
     'While a stream in the legacy format is validated, arbitrary units and SEIs, failing allocations and failures of the cryptographic library cause no crash, hang or leak, never improve a verdict, and later intact GOPs are authentic again. '
     'Reports keep to the same rules as for the current format, and after a reset the session behaves as a new one.',
     ['inputs', 'histories', 'fault_sequences'], 'every hostile unit, fault, reset point and transport operation within the bounds',
     'The repository no longer contains a signer for the legacy format, and its tests inject no faults.', [LEG, LEGT, LEGC],
     [('use of a SEI', LEG + ': legacy_prepare_for_validation'), ('reports', LEG + ': legacy_update_authenticity_report'), ('decoding', LEGT + ': legacy_tlv_decode'), ('reset', COM + ': signed_video_reset')])


prop('P23', 'Versions are compared correctly and reports name the signing version',
     'Two versions compare by their major, minor and patch number, texts that are no versions are refused, and the result does not depend on the order of the arguments. Every report names the version that signed the stream, whatever it is, and the one that validates it; a stream signed by the same or an older version is judged as usual, and one signed by a newer version is reported as a version mismatch.',
     ['inputs'], 'every pair of versions, every text and every signing version within the bounds',
     'All streams of the tests are signed by the version that validates them; version numbers are compared for a few pairs.', [COM, REP],
     [('comparison', COM + ': signed_video_compare_versions'), ('report', REP + ': update_authenticity_report'), ('decoding', TLV + ': decode_general')])


prop('P28', 'After a disturbance, intact GOPs are authentic again',
     'However units were altered, lost, repeated or inserted for a while, once signed GOPs arrive intact again they are reported authentic, from the second intact GOP on, and the latest report is OK. The same holds for a viewer that starts to receive the stream at any point.',
     ['histories', 'inputs'], 'every transport operation within the bounds, at every point of the disturbed part, and every point of tuning in',
     'Tests disturb a few streams at fixed points and mostly end soon after.', [AUTH, NL],
     [('association', NL + ': h26x_nalu_list_get_next_sei_item'), ('lost SEIs', AUTH + ': validate_authenticity, maybe_validate_gop'), ('linked hash', AUTH + ': prepare_for_link_and_gop_hash_verification')])


prop('P30', 'However many GOPs were signed before, validation is the same',
     'A stream is judged the same whatever number its first GOP has, also when the numbering starts over in the middle of it. Losses are noticed, intact streams are authentic, and intact GOPs after a loss are authentic again.',
     ['inputs', 'histories'], 'every 32-bit number of the first GOP, and every loss within the bounds',
     'A test would have to sign four billion GOPs to see the numbering start over.', [AUTH, TLV],
     [('lost signatures', AUTH + ': detect_lost_sei'), ('numbering', TLV + ': encode_general, decode_general')])


prop('P33', 'Metadata recurs with the interval that was set, counted in frames',
     'The first SEI carries the public key and the product information. After that a SEI carries them exactly when, since the SEI before it, the number of frames (not slices, parts or other units) has reached a whole multiple of the interval that was set; the frame that triggers the SEI counts.',
     ['inputs', 'histories', 'configurations'], 'every 32-bit interval, stream shape and order of unit kinds within the bounds',
     'Tests use a few intervals, and units that are all frames of their own.', [SIGN, TLV],
     [('counting', SIGN + ': signed_video_add_nalu_part_for_signing_with_timestamp'), ('setting', SIGN + ': signed_video_set_recurrence_interval_frames'), ('encoding', TLV + ': tlv_list_encode_or_get_size')])


def main():
    rows, checks = [], []
    for pid in sorted(PROPS):
        m = M[pid]
        rows.append(json.dumps(m))
        P = PROPS[pid]
        checks.append(dict(property=pid, quick_cmd='python3 /verif/check.py %s --tier quick' % pid, thorough_cmd='python3 /verif/check.py %s --tier thorough' % pid,
                           technique='symbolic execution of the LLVM IR of the current sources (svsym) with Z3 deciding every branch, memory access and assertion; native replay of counterexamples',
                           level='model_checking', level_note='Bounded: ' + P['bounds'] + '. Outside: ' + (P.get('outside') or 'larger bounds') + '. Cryptography is modelled as ideal.',
                           evidence_file='evidence/%s.json' % pid))
    open(V + '/properties.jsonl', 'w').write('\n'.join(rows) + '\n')
    json.dump(dict(version=1, setup_cmd='python3 /verif/check.py --build', checks=checks, not_applicable=NA),
              open(V + '/MANIFEST.json', 'w'), indent=1)


NA = []
if __name__ == '__main__':
    main()
