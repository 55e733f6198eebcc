#!/usr/bin/env python3
"""Writes known-findings.txt. Run by hand only; no check runs it."""
import re, subprocess, sys, os
H = "0123456789abcdef0123456789abcdef01234567"
P = "A U Thor <a@example.com> 1503667703 +0200"
def obj(kind, body):
    b = body.encode()
    return (kind.encode() + b" %d\0" % len(b) + b).hex()
C = f"tree {H}\nauthor {P}\ncommitter {P}\n"
T = f"object {H}\ntype commit\ntag v1\ntagger {P}\n"
M = f"mergetag object {H}\n type commit\n tag v1\n tagger {P}\n"
SIG = "gpgsig -----BEGIN PGP SIGNATURE-----\n \n iQEz\n =abcd\n -----END PGP SIGNATURE-----\n"
tree = (b"tree 29\0" + b"100644 a\0" + bytes.fromhex(H)).hex()
F = [
 ("C01", "K1", "roundtrip", obj("tag", T + "\n"), "a tag with the blank separator line but an empty message loses the separator"),
 ("C03", "K1", "roundtrip", obj("tag", T + "\n"), "a tag with the blank separator line but an empty message loses the separator"),
 ("C01", "K2", "roundtrip", obj("commit", C + "x-first 1\n" + SIG + "\nm\n"), "an unrecognised header before the PGP signature is written after it"),
 ("C01", "K4", "roundtrip", obj("tag", T + "x-extra 1\n\nm\n"), "an unrecognised header line of a tag is dropped"),
 ("C03", "K4", "roundtrip", obj("tag", T + "x-extra 1\n\nm\n"), "an unrecognised header line of a tag is dropped"),
 ("C17", "K4", "output", obj("tag", T + "x-extra 1\n\nm\n"), "an unrecognised header line of a tag is printed to standard output"),
 ("C01", "K4b", "roundtrip", obj("commit", C + M + " x-extra 1\n \n m\n" + "\nm\n"), "an unrecognised header line of an embedded tag is dropped"),
 ("C01", "K7", "roundtrip", obj("commit", C), "a commit that ends after its headers, without the blank line, gains one"),
 ("C01", "K8", "roundtrip", obj("commit", C + M + "\nm\n"), "an embedded tag that ends after its headers gains a blank line"),
 ("C01", "K9", "roundtrip", obj("commit", C + SIG.replace(" \n iQEz", " Hash: SHA1\n \n iQEz") + "\nm\n"), "a PGP signature whose first armour line is neither blank nor Version: nor Comment: is refused"),
 ("C02", "K9", "decode", obj("commit", C + SIG.replace(" \n iQEz", " Hash: SHA1\n \n iQEz") + "\nm\n"), "a PGP signature whose first armour line is neither blank nor Version: nor Comment: is refused"),
 ("C18", "K10", "negative-index", obj("commit", C + "\nm\n"), "looking up index -1 in a list node panics"),
 ("C18", "K11", "tree-key-node", tree, "Tree.LookupByNode panics for key nodes that are not of this package's String type"),
 ("C19", "K6", "assign-foreign", obj("commit", C + "\nm\n"), "AssignNode of a commit with an author held in another node implementation panics"),
 ("C19", "K12", "assign-foreign", tree, "AssignNode of a non-empty tree held in another node implementation panics"),
 ("C19", "K13", "repeated-tree-key", b"a".hex(), "a repeated key is accepted when a tree is assembled with AssembleKey and AssembleValue"),
]
FIXED = """\
fixed: property=C01 75ecc73 commit and tag header lines longer than the read buffer were split, lines ending in a carriage return lost it
fixed: property=C02 5dd145f a mergetag without a message swallowed the next commit header
fixed: property=C07 eeb91a8 consecutive mergetags were decoded recursively and overflowed the stack
fixed: property=C08 7c5c361 a tree cut in the middle of an entry was accepted
fixed: property=C08 4fd547c objects shorter or longer than their declared size were accepted
fixed: property=C07 c4d7d1e encoding a commit without an author or committer panicked
fixed: property=C14 98b239a commits held in representation or generic nodes did not encode
fixed: property=C14 20c9612 a tag node whose first key is message was taken for another kind
fixed: property=C07 bb043ed encoding a list node panicked
fixed: property=C13 9e115e3 links that hold no 20-byte SHA-1 were encoded or panicked
fixed: property=C03 72fdd05 a tag without a tagger gained an empty one when encoded
fixed: property=C02 891cd40 a gpgsig header that is not a PGP signature was refused or misread
fixed: property=C07 500579d decoding a commit or tag into a tree builder panicked
fixed: property=C10 0af302d an object whose last bytes came together with io.EOF could be refused
"""
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
def write(obs):
    with open(V + "/known-findings.txt", "w") as f:
        f.write("# See DESIGN.md, 'Known findings'. Format of a finding: property, id, probe, input (hex), what the probe observes, what it means.\n")
        for (p, k, pr, inp, what) in F:
            f.write(f"finding: property={p} id={k} probe={pr} input={inp} observed={obs.get((p,k),'?')} what={what}\n")
        f.write(FIXED)
obs = {}
write(obs)
for p in sorted({x[0] for x in F}):
    for i in range(len([x for x in F if x[0] == p])):
        o = subprocess.run([V + "/run.sh", p, "quick", f"known-findings:{i}"], capture_output=True, text=True).stdout
        m = re.search(r"known finding (\S+) \(.*?\): observed (\S+), listed", o, re.S)
        if m: obs[(p, m[1])] = m[2]
        else: print(p, i, "not observed:", o)
write(obs)
for k, v in obs.items(): print(k, v)
