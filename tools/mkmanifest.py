#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl."""
import json
import os
import subprocess

root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(root, "properties.jsonl"))]
hook = subprocess.run(["git", "-C", "/repo", "log", "--format=%H", "--grep=^verif:"], stdout=subprocess.PIPE, text=True).stdout.split()

COMMON = ("TLA+ specification of the journal (Scan, Ledger, Props). TLC checks the property exhaustively on the bounded "
          "model MC; the behaviours of that model and random scenarios are executed by the real library, and TLC (Trace) "
          "checks every recorded result and observation against the specification. Trusted: the transcription of the "
          "observations (harness, conv.py), TLC, the bounds of the pools and the generator; texts the specification leaves "
          "open are not judged. ")
NOTE = {
    "C01": "Judged: acceptance of every transaction, and the sum of the recorded values per commodity.",
    "C02": "Judged: the completed amount against the sum of the other recorded values; two omissions rejected.",
    "C03": "Judged: account, quantity, number of decimals, sign, symbol and order of every posting.",
    "C04": "Judged: the whole tree, by walking it, against the accounts named or registered.",
    "C05": "Judged: links and own balance of every account against the recorded postings, in exact decimals.",
    "C06": "Judged: every total against the own balances of the subtree, in exact decimals.",
    "C07": "Judged: every line of the report against the observed totals, and of the command.",
    "C08": "Judged: the report as a multiset of names against the tree; the sorted output of the command.",
    "C09": "Judged after every operation by address: posting to transaction, account, commodity, and back.",
    "C10": "Judged: pool against the symbols of the text; shared commodities by address.",
    "C11": "Judged: every recorded cost against the exact product or total.",
    "C12": "Judged: which postings have an implied cost, its sign, and its value to 18 digits or 26 decimals.",
    "C13": "Judged: every recorded price against the costs, to 18 digits or 26 decimals. Needs the observation hook.",
    "C14": "Judged: the set of recorded prices against the directives. Needs the observation hook.",
    "C15": "Judged: every lookup against all shortest chains over the observed prices. Needs the observation hook.",
    "C16": "Judged: date, auxiliary date, payee, note of every transaction; invalid dates rejected.",
    "C17": "Judged: the note of every transaction and posting.",
    "C18": "Judged: journals in different layouts against the specification and against each other.",
    "C19": "Judged: the same journal in pieces, files, includes and portions; the counts returned.",
    "C20": "Judged: every source the grammar calls malformed, faulty readers at every kind of position, missing and undecodable files.",
    "C21": "Judged: the observation before against the one after each read, also after rejected reads.",
    "C22": "Judged: results of lookups and registrations against the observed tree and pool, which must not change.",
    "C23": "Judged: result and output of run, run_command and the built binary against the journal of the same files.",
    "C24": "Judged: every operator on all pairs of a table and on random operands, in exact decimals.",
    "C25": "Judged: two processes with different hash seeds and heap contents, and two journals in one process, are compared. The clock cannot be set here.",
    "C26": "Judged: breakdown and price of exchanges after reading journals with and without lots.",
    "C27": "Judged: journals with and without annotations against each other and the specification.",
    "C29": "Judged: sequences of the operators on balances against the exact sums, in all pairs of a table and at random.",
    "C28": "Judged: the four places and the four notations against the grammar.",
}
m = {
    "version": 1,
    "setup_cmd": "bash setup.sh",
    "hooks": {"guard": "ledger_verif", "enable": "RUSTFLAGS=\"--cfg ledger_verif\"", "source_commits": hook},
    "checks": [{
        "property": p["id"],
        "quick_cmd": f"python3 check.py {p['id']}",
        "thorough_cmd": f"python3 check.py {p['id']} --thorough",
        "technique": "TLA+ specification model-checked with TLC; trace conformance of the implementation",
        "level": "model_checking",
        "level_note": COMMON + NOTE[p["id"]],
    } for p in props],
    "not_applicable": [],
    "notes": "See DESIGN.md. Known findings: KNOWN_FINDINGS.txt (all repaired).",
}
json.dump(m, open(os.path.join(root, "MANIFEST.json"), "w"), indent=1)
