#!/usr/bin/env python3
"""Writes DESIGN.md."""
import json, subprocess, glob, os
N = {
"C01": ("the list of delimiter-terminated pieces of the stream computed by the harness", "every split of every stream into reads is covered at once; tests use one"),
"C02": ("length of what is returned and what is asked of the transport", "limits and buffer edges at every offset"),
"C03": ("a log of hook calls against the stream", "all verdict sequences"),
"C04": ("the byte stream written, through real reader and writer with the modelled codec", "history and chunking decide where the buffers hold data at a switch"),
"C05": ("slices of the original stream", "section sizes around the buffer and partial reads"),
"C06": ("concatenation of everything accepted", "buffer occupancy at each operation"),
"C07": ("prefix relation between what was accepted and what a transport failing at byte k got; sticky error", "all failure points"),
"C08": ("an independent reference of the escape table; inversion", "all short byte strings"),
"C09": ("field-wise equality after encode, frame check and decode; framing of arbitrary bytes", "token and byte-level combinations of adjacent fields"),
"C10": ("field-wise equality", "tags, flags, numbers at type limits"),
"C11": ("field-wise equality", "separators inside of fields, numbers at type limits"),
"C12": ("field-wise equality; exact integer value of the digits", "64-bit offsets"),
"C13": ("field-wise equality, reference command names", "as C09"),
"C14": ("no panic, no endless loop (step bound) for arbitrary, damaged and truncated payloads of every registered command", "all bytes at once"),
"C15": ("value of the digits computed in wide arithmetic by the harness, or refusal", "overflow limits of every width"),
"C16": ("an independent classification of every command of a stream", "arbitrary streams and hook verdicts"),
"C17": ("independent implementation of the NMDC specification", "all short locks"),
"C18": ("a reversible model code that contains the protocol's delimiters as trail bytes", "order of unescape, decode and split"),
"C19": ("concatenation of the framed messages", "vetoes, refusals, failures in any order"),
"C20": ("independent escaping reference; inversion; wire safety", "all short byte strings"),
"C21": ("independent encoding of each field as words, field-wise equality after decoding", "pairs of fields, presence, numbers at limits"),
"C22": ("independent construction of the line (refLine) and independent parse of arbitrary lines", "all short payloads and address parts"),
"C23": ("no panic for arbitrary, damaged, truncated lines of every packet kind and command", "all bytes at once"),
"C24": ("base32 arithmetic in the harness", "every identifier"),
"C25": ("set semantics with an arbitrary probe feature", "all sequences of operations"),
"C26": ("independent split and classification of a stream", "arbitrary streams, chunkings"),
"C27": ("refLine per packet, concatenated", "all orders, failures"),
"C28": ("value of the digits, truth table of the severities", "all texts"),
"C29": ("textbook Merkle construction over the uninterpreted compression function", "every length around block and leaf limits and every chunking"),
"C30": ("base32 arithmetic", "every value and every text"),
"C31": ("comparison of uninterpreted digests", "all prints up to the bound"),
"C32": ("idempotence, host and port kept", "arbitrary bytes and the grid of address parts"),
"C33": ("membership in the tables of the ADC specification", "arbitrary extension text"),
"C34": ("log of what was accepted by the writing side", "combination of all layers in every order"),
"C35": ("encodings before and after the input, the buffer or the message is overwritten", "arbitrary byte at any position of every command"),
"C36": ("error, nothing delivered, nothing sent, no crash", "every state at the close and following operations"),
"C37": ("a transport that fails the harness when it is asked for data that was not sent", "deadlocks do not show with complete buffers"),
"C38": ("a transport that fails the harness when it is written to while the timeout is not armed", "all operations in any order, arming failures"),
"C40": ("the same connection run alone on the same path", "12 kinds of connections in every combination, every call that leaves the library as a switching point, one (thorough two) operations of the other there"),
"C39": ("the list of the protocols' commands, written down independently in the harness", "names of up to 4 arbitrary bytes, every name with one arbitrary byte; ADC names of three arbitrary bytes"),
}
N.update(json.load(open('/verif/tools/notes.json')) if os.path.exists('/verif/tools/notes.json') else {})
props = [json.loads(l) for l in open('/verif/properties.jsonl')]
hs = [json.loads(l) for l in subprocess.check_output(['/verif/.build/replay', '-list'], text=True).splitlines()]
out = open('/verif/tools/design_head.md').read()
out += "## 3. Properties\n\nAll are decided by the method of section 1; each entry gives the oracle, what the solver covers that tests cannot, and per harness the bounds (quick; thorough in brackets where it differs).\n\n"
seeds = {}
for f in sorted(glob.glob('/verif/seeded/*/meta.json')):
    m = json.load(open(f)); seeds.setdefault(m['property'], []).append((os.path.basename(os.path.dirname(f)), m))
for p in props:
    o, w = N[p['id']]
    out += f"### {p['id']} {p['title']}\n\nOracle: {o}. Reach: {w}. Code: {', '.join(p['anchors']['files'])}.\n\n"
    for h in hs:
        if h['Prop'] == p['id']: out += f"* `{h['Name']}`: {h['Doc']}\n"
    if p['id'] in seeds: out += "\nPlanted bugs caught: " + ', '.join(f"`{i}`" for i, _ in seeds[p['id']]) + ".\n"
    out += "\n"
out += open('/verif/tools/design_tail.md').read()
out += "## 7. Planted bugs\n\nEach is in `seeded/<id>/`; every one is caught by the quick check of its property unless marked.\n\n| id | needs | breaks | |\n|---|---|---|---|\n"
for k in sorted(seeds):
    for i, m in seeds[k]:
        out += f"| {i} | {m['needs']} | {m['what_it_breaks']} | {m.get('missed','caught')} |\n".replace('|x|','')
out += "\n## 8. Defects of go-dc found and repaired\n\n(one `fix:` commit each; `known_findings.txt`; no finding is left unrepaired)\n\n"
for l in open('/verif/known_findings.txt'):
    if l.startswith('fixed:'): out += "* " + l[6:].strip() + "\n"
open('/verif/DESIGN.md', 'w').write(out)
