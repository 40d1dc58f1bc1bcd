#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the checks that exist."""
import json
import os

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
T = "TLA+/TLC: model checking of %s; conformance by TLC trace validation of replayed scenarios"
NOTES = {
    "C01": ("AgeReader/AgeFile", "every recipient list up to length 2 (3 thorough) over 8 identities x every position, plus random longer lists with decoy identities and a sweep of plaintext lengths, decided by AgeFile's judgement; ideal cryptography, cheap scrypt stand-in"),
    "C02": ("AgeReader/AgeFile", "all small recipient/identity combinations plus random larger ones and stanza grafting between files; ideal cryptography, cheap scrypt stand-in"),
    "C03": ("AgeReader/AgeFile", "attacker edits of the payload: all single edits, random multi-edits, every bit and every prefix of small files, chunk boundaries of large ones, more than 256 chunks; ideal cryptography"),
    "C04": ("AgeReader/AgeFile", "attacker edits of the header: all single structural edits on five header shapes, random multi-edits, grafts of two files, every bit flip / deletion / selected insertion at every header byte; ideal cryptography"),
    "C05": ("AgeWire", "every recipient list up to length 2 (3 thorough) over six key kinds, random lists up to 12, payload lengths 0..120 and around every chunk boundary, more than 256 chunks; the file is taken apart by an independent reader and its header text rendered from AgeWire"),
    "C06": ("AgeWire", "files made by an independent writer whose header text AgeWire renders: grease stanzas of 16 types x 9 argument lists x 15 body lengths in all places, mixed recipients, payload lengths as C05"),
    "C07": ("AgeSessions", "histories of encryptions within one process (one thread, a thread per object, a thread per call, four threads running at once, long lives of one object list) and across processes, secrets taken from the files; whole-history equality judged by AgeSessions; collisions of 128-bit values ruled out"),
    "C08": ("AgeSessions", "every interleaving of up to three writer/reader objects' operations up to a bounded length plus random longer ones, on one thread, a thread per object, a thread per call, and copies of a history running in four threads at once"),
    "C09": ("AgePassword", "every work factor text from -3 to 70 (300 thorough) plus large, non-integer and oddly spelt ones, each with the work a maker could really have used, mixed stanza lists, and passwords of 30 lengths against single-byte and whitespace/case/prefix variations; real scrypt for some"),
    "A01": ("AgeArmor", "every data length up to 300 (2000 thorough) and some up to 1 MiB, all short histories of writes and reads, random histories of two writers and readers on four kinds of underlying stream"),
    "A02": ("AgeArmor", "every text of up to 4 lines (5 thorough) over 8 line forms, every single and random multiple line edits of 8 well-formed texts over 60 line forms, prefixes and single-character edits of written files; the line machine is model-checked against a grammar"),
    "K01": ("AgeKeys", "Bech32 transcribed in full, so every text is judged by the specification: all single alterations of two keys, random alterations of up to four characters, crafted prefixes, lengths and padding; the code distance is computed (whole length in the thorough tier)"),
    "K02": ("AgeKeys", "every file of up to 4 lines (5 thorough) over 5 line forms, every one of 40 line forms between others, random longer files, three line endings"),
    "K03": ("AgeSshKeys", "container parsed byte by byte by the specification: every single deviation from the format on 6 key types, random double ones, byte edits at every 4th (Ed25519) to 16th (RSA) position (every position thorough), ssh-keygen's own files, PEM files, edits of the text; bcrypt and AES ideal"),
    "K04": ("AgeSshDir", "every one of 43 kinds of file beside, before and after two usable keys, 26 file names, 11 kinds of directory, random directories of up to 8 files, each also through the decrypt command"),
    "K05": ("AgeSshPublic", "lines parsed byte by byte by the specification (Base64, strings, numbers): RSA moduli of 8 to 512 bytes (2048 thorough), exponents of 10 kinds, Ed25519 points including improper ones, every single edit near the start of one key of each type, random double ones, names exchanged; pairs of near and equal keys; private keys of 10 kinds in six forms with four passphrase situations"),
    "R01": ("AgeResolve", "every form of text (about 60) named directly, as alias value, and as line of a file, a download and a user's keys, alone and between keys; 9 kinds of download failure; random worlds; network stood in for by a local server"),
    "R02": ("AgeResolve", "as R01, with every file opened and every address fetched recorded by an audit hook and compared with what the specification allows"),
    "L01": ("AgeCommand", "every one of 32 kinds of name alone, before and after a good one, and random lists up to 6, with and without a password, four sources, six destinations; produced files opened by an independent reader with 12 identities and by the code itself; the network is stood in for by a local server"),
    "L02": ("AgeCommand", "damage at every 2% of the file and near its end, every armor line removed and repeated, foreign input, wrong armor mode, every identity configuration, failing inputs and outputs, output over the input; ideal cryptography"),
    "L03": ("AgeCommand", "input errors of six kinds; output limited to sizes around every structural boundary and random ones, with the write failing or the process killed, buffered and unbuffered; failing outputs of five kinds; output over the input by name and by link"),
    "L05": ("AgeCommand", "every combination of four sources and four destinations of both commands and armor, lengths around block and chunk boundaries, 16 recipient lists with every place their identity can be in, files and their output being the same"),
    "L06": ("AgeEffects", "every kind of recipient name, password, faulty input and output, damage, fitting and other identities, damaged identity files in 12 ways, permissions and line ends of the files around; changes of all files, audit events of the interpreter and requests compared with the effects the specification permits, messages searched for every 12 byte piece of the secrets in seven spellings"),
    "L04": ("AgeGenerate", "all 512 permission combinations of an output file named or on standard output, all group/other masks for new files, special permission bits, ten other kinds of output, seven that fail, every short output length around the lines; keys of all runs compared; every file used to decrypt"),
}
props = [json.loads(x)["id"] for x in open(os.path.join(VERIF, "properties.jsonl"))]
checks, na = [], []
for p in props:
    if p in NOTES and os.path.exists(os.path.join(HERE, "props", p.lower() + ".py")):
        mod, note = NOTES[p]
        checks.append({
            "property": p,
            "quick_cmd": "VERIF_TIER=quick python3 harness/check.py " + p,
            "thorough_cmd": "VERIF_TIER=thorough python3 harness/check.py " + p,
            "evidence_file": "evidence/%s.json" % p,
            "technique": T % mod,
            "level": "model_checking",
            "level_note": note,
        })
    else:
        na.append({"property": p, "reason": "check still under construction"})
m = {
    "version": 1,
    "setup_cmd": "bash harness/setup.sh",
    "checks": checks,
    "not_applicable": na,
    "notes": "No hooks in /repo: the drivers use the public API and the pyage command only.",
}
with open(os.path.join(VERIF, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
