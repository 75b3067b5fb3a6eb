#!/usr/bin/env python3
"""Writes DESIGN.md from the text below and from props.py, meta.py, known_findings.json and seeded/ (run by hand)."""
import glob
import json
import os
import sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from props import PROPS
import meta

HEAD = r'''# How signed-video-framework is checked

One technique decides every property: the current sources of /repo are compiled to LLVM bitcode (clang -O0) and
executed symbolically together with a harness. Inputs, transport operations, fault positions, schedules and
verdicts of the signature check are symbolic variables; the property is an assertion over them; Z3 decides every
branch, memory access and assertion for all values within the bounds. A counterexample is a file of concrete inputs,
which is replayed against a native build (ASan and UBSan, ThreadSanitizer for races) of the same sources; only what
reproduces there is reported as VIOLATION.

## Machinery

| Part | What it does |
|---|---|
| `engine/` | *svsym*, a symbolic executor for LLVM IR written for this task (C++ on LLVM 18 and the Z3 API). Object-granular memory with bounds, lifetime and initialisation checks, forking at branches, merging by if-then-else, an own rewriting and counterexample cache in front of Z3, threads with a bounded number of preemptions, and a happens-before race detector. Division by zero, shifts out of range, signed overflow where clang marks it, failed `assert` of the repository, leaks (asserted by harnesses), and non-termination (instruction budget) are found as well. |
| `rt/` | The API for harnesses (`vf.h`); `prelude.h`, force-included in front of every repository source, routes allocation, copying and formatting through checked versions, which can fail at any call; `libc.c` string functions; `ossl_model.c` an ideal model of the part of libcrypto that is used; `glib_model.c` threads, mutexes and conditions; `native.c`, `native_tsan.c` the runtime for replay. |
| `harness/` | One harness per group of properties; `common.c` holds the camera and the viewer, `legacy.h` an independent signer for the legacy format, `seibuild.h`/`seiparse.h` an independent writer and reader of SEIs, `attest.h` attestations. |
| `props.py` | Per property: the explorations, their bounds, and how they are split into cubes over the 8 cores. |
| `check.py` | Builds the engine if needed, compiles /repo's current sources (whatever .c files are there) for every configuration, runs the explorations in parallel, replays counterexamples, checks that every exploration reached its witnesses (no vacuous success), writes the evidence. |
| `meta.py`, `tools/` | Write properties.jsonl, MANIFEST.json, known_findings.json and this file. |

The harnesses call the public API (and, for P23 and printing, two helper functions that the repository's own tests call) and judge only what
can be observed there: return codes, SEIs, reports, live allocations. They do not look at internal state, so a
rewritten implementation with the same behaviour passes. New .c files in lib/src, helper functions and renamed
internals need no change here.

### The model of cryptography

Hashes are an injective oracle (the same message gives the same digest, different messages different ones; messages
with symbolic bytes are compared by the solver). A signature is valid for exactly the digest and key it was made for.
Signing, verifying, parsing keys, certificates and every other library call can be made to fail (P05, P22). Private keys,
public keys and certificates are short texts, so that they can be symbolic. `ossl_live_objects()` counts what the code
did not give back. What the model does not cover: collisions, forgery, side channels, and the parsing done by OpenSSL itself.

### What a bound means here

All properties are decided for all values within the stated bounds (level `model_checking`), nothing outside them.
GOPs are short because a GOP's length only affects loops over a list; runs with long GOPs and with a lowered
MAX_GOP_LENGTH cover the limits. The small-scope reasoning is an argument, not a proof.
If a change of the code makes an exploration exceed its time, the run is listed as `incomplete` in the
evidence and nothing is claimed for it; the check does not fail because of it.

### Why tests cannot settle these properties

The existing tests feed a few dozen hand-written streams. Each exploration here covers every position, value and
combination within its bounds, typically 10^3..10^5 paths with each path standing for all values of its symbolic bytes.
'''

HOW = {
 'P01': 'chan.c: a camera session signs a stream, the channel alters picture units (symbolic unit, offset and value), a viewer session validates. Oracle: a unit reported authentic is byte-equal to a signed one, in order, at most once; an OK verdict implies that nothing is missing or foreign between authentic pictures; a difference from the signed stream inside GOPs whose SEIs arrived must be flagged.',
 'P02': 'As P01, with every transport operation on picture units and every position for it. The oracle is the same, independent of which operation was used.',
 'P03': 'seitamper.c: every byte of a SEI is replaced by a symbolic other value (a cube is a range of positions). Oracle: nothing the tampered SEI alone vouches for is authentic, metadata and keys of a tampered SEI are never reported as authentic, and the validation does not crash.',
 'P04': 'stream.c: no channel at all; every unit must be reported authentic and every report OK, for every setting (codec, level, key type, hash, recurrence, several slices, other units in between, end of stream, golden SEI, SEI size limit).',
 'P05': 'verify.c: each call of the signature check returns a symbolic verdict (good, bad, error), so a bug that treats an error as success is visible. Oracle: pictures are authentic only if the SEI of their GOP, or a linking one, was positively verified.',
 'P06': 'keys.c: two signers with different keys, the viewer is switched between them at any position. Oracle: the report says that the key changed and the overall verdict is not OK; a preset key is the only one that counts.',
 'P07': 'chan.c with operations on SEIs and whole GOPs; oracle as P01 plus: an OK report vouches only for GOPs received in full.',
 'P08': 'bytes.c: units of symbolic bytes in every context. Oracle: no memory error, failed assert, endless loop or leak; an error code is allowed; the session still validates an intact stream afterwards.',
 'P09': 'bytes.c: SEIs built by seibuild.h with symbolic content, per information element and for arbitrary element sequences; otherwise as P08.',
 'P10': 'sei.c: product information with symbolic characters and all lengths around the limits; the report must give back the (possibly truncated) text.',
 'P11': 'sei.c: every SEI produced is parsed by the independent reader; sizes, emulation prevention, order of elements, and the signature over exactly the part in front of it are compared.',
 'P12': 'queue.c: all sequences of API calls against an abstract queue; the plugin of the harness delivers or fails at arbitrary times. Oracle: each SEI once, in order, complete, with its own signature, none lost.',
 'P13': 'parts.c: a unit is handed over in parts, buffers are overwritten afterwards; the SEIs must be byte-equal to those of a session that got whole units, also after a refused call.',
 'P14': 'parts.c: different start codes and trailing zeros on both sides, every value of the first bytes of a unit; both sides must agree on whether a unit is a picture, and a unit in any form validates.',
 'P15': 'chan.c, keys.c, verify.c, stream.c with rule 1 and 2 of common.c: after every unit the overall verdict is the worst so far and never improves, and a report that was handed out is independent of the session.',
 'P16': 'The same explorations with rule 3: the strings and counters of consecutive reports account for every unit that was handed in, once.',
 'P17': 'cfg.c: every API function with every missing or out-of-range parameter, unusable key and invalid unit at every point; must return the documented error and have no effect: the stream is compared with one without the call. Allowed changes in the middle keep the stream valid.',
 'P18': 'limits.c: MAX_GOP_LENGTH lowered by its build option, symbolic SEI size limit. Oracle: an independent computation of the SEI size decides whether the hash list must be there; the stream validates in either case.',
 'P19': 'threads.c with the threaded plugin: the engine explores every schedule with at most two preemptions; assertions on delivery, absence of deadlock, leaks and races; faults of signing, allocation and thread creation at any point.',
 'P20': 'reset.c: a reset session and a fresh one get the same units; reports and SEIs must be equal. Two sessions interleaved must behave as each alone.',
 'P21': 'faults.c: every allocation can fail (symbolic position). Oracle: announced by a return code or less favourable verdict only; no leak; works again from the next GOP on.',
 'P22': 'faults.c with OSSL: the same for every call of the cryptographic library.',
 'P23': 'version.c: symbolic digits and texts; a reference comparison; streams signed by every version, made by patching the signed version and re-signing in the model.',
 'P24': 'vendor.c: attestations and certificate chains with symbolic changes; the model of X.509 decides genuineness. Oracle: validated only if the named device attested this very key.',
 'P25': 'golden.c: golden SEIs genuine, tampered (symbolic byte), of another signer, repeated and misplaced. Oracle: without a positively verified golden SEI nothing is authentic.',
 'P26': 'The harnesses of P01..P07 with LEGACY: the stream comes from legacy.h. Oracle as there, with the differences legacy validation has by design (see below).',
 'P27': 'The harnesses of P08, P09, P15, P16, P20, P21, P22 with LEGACY.',
 'P28': 'chan.c with RECOVER: only a part of the stream passes the channel; everything from the second intact GOP on must be authentic and the latest report OK.',
 'P30': 'chan.c with BASE: the numbers in the SEIs of a signed stream are shifted by a symbolic 32-bit value and the SEIs signed again in the model of cryptography; otherwise as P02, P07 and P28.',
 'P29': 'The harnesses of P04, P06, P08, P09, P10, P12, P13, P17, P18, P20, P24, P25, P26 and chan.c with LEAK: at the end of every path the number of live allocations of the framework and of live objects in the model of cryptography must be zero.',
 'P31': 'keygen.c with a model of a file system in which opening, writing, flushing and closing may fail (what was not flushed is lost): symbolic kind of key, interface, directory, outputs, existing file and point of failure.',
 'P33': 'recur.c: a symbolic 32-bit interval and all short orders of slices, parameter sets and delimiters; an independent parser reads every SEI produced and a counter of frames in the harness says which of them have to carry the metadata.',
 'P32': 'sei.c: symbolic 64-bit timestamps, with and without emulation prevention; the report must give them back, or say there is none.',
}
HOW.update(getattr(meta, 'HOW', {}))

TAIL = r'''## Behaviour that looks odd but is by design

These were alarms of early versions of the checks; the properties were corrected to allow them.

* The first validation, if it fails, gives SIGNATURE_PRESENT rather than NOT_OK; marks inside such a report do not count.
* An altered unit that is byte-identical to a genuine one may be marked authentic. Trailing zeros are not part of a unit.
* After a key change the latest report may be OK again while the overall verdict stays NOT_OK.
* Whole GOPs moved together with their SEIs may be recognised in reports that are NOT_OK.
* Validation of a GOP needs the start of the next one and its SEI.
* RSA with sha512 is not supported for signing; a session without any key returns NOT_SUPPORTED; adding is refused with NOT_SUPPORTED while completed SEIs wait, and with 60 waiting.
* Changing the reserved byte of the first SEI selects legacy validation, or removes the golden mark; nothing becomes authentic by that.
* Product information is truncated to 254 characters. `get_nalu_to_prepend` is last in, first out.
* H.265 TSA/STSA/RADL/RASL and H.264 data partitions are not signed. Units with an invalid header are ignored on both sides.
* Reset keeps the public key. The limit on hash list size counts bytes, not hashes.
* Legacy: a unit that was altered to look like the start of a GOP is judged one GOP later; the latest report may be OK before a loss is noticed.
* A failed allocation while noting down missing units affects statistics only, as the code documents.

## Weaknesses noticed, not claimed as properties

* A golden SEI repeated after the first SEI breaks the validation of that GOP.
* With the Axis vendor code a P-384 key, or a certificate chain of fewer than three certificates, is accepted by the setter but leads to SEIs that cannot be decoded.
* A session whose list could not be allocated at creation reports errors for ever (announced by each call).
* With the central thread signatures are delivered strictly in the order of requests over all sessions, with a common buffer of 60.

## False alarms corrected

Besides the design points above: leak counts that included allocations of the harness; a model of EVP_DigestFinal_ex that
failed at the second call (OpenSSL 3.0.13 succeeds); misaligned accesses that clang's IR allows; marks in SIGNATURE_PRESENT
reports taken as vouching. All were corrected in the machinery, none is listed as a finding.

## Not applicable

No property is listed as not applicable. The following parts of the repository are outside the checks, because they are not part of the
library's guarantees: the example applications (GStreamer), the build files, and the tests themselves. OpenSSL itself is modelled, not encoded.
'''


def main():
    o = [HEAD, '\n## Properties\n']
    ev = lambda p: json.load(open(V + '/evidence/%s.json' % p)) if os.path.exists(V + '/evidence/%s.json' % p) else None
    for p in sorted(PROPS):
        P, M = PROPS[p], meta.M[p]
        o.append('### %s %s\n' % (p, M['title']))
        o.append(HOW[p] + '\n')
        o.append('*Bounds:* %s. *Outside:* %s.\n' % (P['bounds'], P.get('outside') or 'larger bounds'))
        o.append('*Why not tests:* %s\n' % M['why_tests_cant'])
        q = sum(1 for r in P['runs'] if r.get('tier', 'quick') != 'thorough')
        e = COST.get(p)
        o.append('*Cost:* %d explorations in the quick tier, %d more in the thorough tier%s.\n' % (q, len(P['runs']) - q, '; %s' % e if e else ''))
    K = json.load(open(V + '/known_findings.json'))
    o.append('## Defects found\n\nOpen (reported as KNOWN-FINDING; the repair is not small and safe):\n')
    for k in K:
        if k['status'] == 'open':
            o.append('* %s: %s.' % (k['property'], k['what']))
    o.append('''
Version mismatch: setting the own version earlier would make the mismatch override NOT_OK in the report, which hides attacks, so the
repair needs a decision of the maintainers. Resynchronisation: the code has a TODO for it; the association of SEIs with GOPs would have to be redone.

Repaired with `fix:` commits in /repo (each found by a counterexample of the named property, replayed natively):
''')
    for k in K:
        if k['status'] == 'fixed':
            o.append('* ' + k['line'][len('fixed: '):])
    o.append('\n' + TAIL)
    o.append('## Planted bugs\n\nWritten from the properties and the code; each passes the repository\'s tests and has a demonstration. "Caught by" lists the checks that were run and reported it.\n\n| Bug | Property | What it breaks | Needs | Caught by |\n|---|---|---|---|---|')
    C = json.load(open(V + '/tools/caught.json')) if os.path.exists(V + '/tools/caught.json') else {}
    for f in sorted(glob.glob(V + '/seeded/*/meta.json')):
        m, b = json.load(open(f)), os.path.basename(os.path.dirname(f))
        o.append('| %s | %s | %s | %s | %s |' % (b, m['property'], m['what_it_breaks'], m['needs'], C.get(b, '')))
    open(V + '/DESIGN.md', 'w').write('\n'.join(o) + '\n')


COST = json.load(open(V + '/tools/cost.json')) if os.path.exists(V + '/tools/cost.json') else {}
if __name__ == '__main__':
    main()
