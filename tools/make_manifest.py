"""Writes /verif/MANIFEST.json."""
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = {
    "C01": ("simulated fleet of vault hosts with crashes, lost and torn writes, partitions; end-to-end and reference-model oracle",
            "Seeded histories of deposits and reopenings over many coins, keys and faults."),
    "C02": ("simulated owner/printer/auditor fleet with message loss, duplication, reordering and crashes; end-to-end and reference-model oracle",
            "Seeded EC-multiply orders, including multiplied keys and halves with leading zero bytes."),
    "C03": ("simulated fleet carrying numbered orders through faults, plus refused numbering; reference-model oracle",
            "Seeded lots, sequences and salts with corners."),
    "C04": ("simulated damage of artifacts in transit and storage (30 kinds), forged checksums, misdelivery; refusal oracle",
            "Seeded damage; a checksum collision has probability 2^-32 per case and is decided by the model, not alarmed."),
    "C05": ("simulated histories of failed and right attempts on many hosts; reference-model oracle",
            "Seeded near-miss passphrases and attempt orders."),
    "C06": ("simulated hosts whose input methods deliver different canonically equivalent forms; end-to-end oracle",
            "Seeded Unicode forms from the interpreter's Unicode tables."),
    "C07": ("deterministic scheduling of real threads at line, instruction and dependency-call granularity, re-entry at arbitrary points; serial-equivalence oracle",
            "Seeded schedules: single stalls, double stalls, PCT, random; switch points inside C code are not reachable."),
    "C08": ("seeded simulated OS entropy under restarts, process clones (fork), threads and failures; freshness, non-interference and accounting oracles",
            "Twin executions that differ only in OS entropy; every draw is accounted for."),
    "C09": ("fault injection at every dependency call and asynchronous exceptions at arbitrary lines, then retries; fault-free-twin oracle",
            "Seeded fault points chosen by distinct code location; faults inside C extensions are modelled at their call boundary."),
    "C10": ("simulated hosts whose RIPEMD-160 provider is present, unlisted, refused or changing in mid-call; differential oracle",
            "Seeded provider states at load, per call, and changing between any two lines."),
    "C11": ("mixed fleet of library hosts and hosts running an independent implementation; byte-for-byte refinement of the specification",
            "A sample of runs uses the real scrypt at full cost; the rest use stand-in key derivations on both sides."),
    "C12": ("simulated histories over instances of every documented coin and network, with refused networks in between; reference-model oracle",
            "Every documented coin/network pair is visited in each quick run; the Ripple alphabet is a listed known finding."),
    "C13": ("repeated requests across retries, duplicates, restarts, hosts, clocks and hash seeds; equality of every execution",
            "Every quick run is executed twice, in processes with different hash seeds."),
    "C14": ("simulated issue and reading of WIF and address records by several parties with damage in transit; reference-model oracle",
            "Seeded keys and hashes with leading zero bytes on every documented prefix."),
    "C15": ("fault injection and refusals with secrets planted in the inputs; disclosure scan of error text and of every output channel",
            "Looks for fragments of passphrases, keys and WIFs in text, hex, decimal and the library's usual encodings; encodings it does not know are not searched."),
    "C16": ("simulated histories over shared key and point objects on several hosts, with deterministic scheduling of real threads, re-entry and faults at every line and dependency call; independent curve arithmetic as the reference model, at every step and again at the end",
            "Seeded histories over few keys related by negation, neighbourhood and leading zeros; the point at infinity is left out."),
    "C17": ("simulated host application around the library: its shared generator, signal, warning, logging, decimal, collector and other process-wide set-up and other modules are compared before and after every operation under refusals, faults and cancellation at any line, and its random stream is drawn from in mid-call",
            "Seeded histories; the probes list what is compared, and process state they do not name is not seen."),
    "C18": ("simulated process that lives through thousands of distinct requests, refusals, outages of its dependencies and cancellations at any line; work counted in lines, dependency calls, derivations and simulated waiting against a bound in the inputs' length and against a fresh process, memory by a census of live blocks and of what the library holds",
            "Seeded mixtures of a dozen kinds of requests; growth counts only when it continues through every interval of a run several times longer, so tables bounded at some two thousand entries pass."),
}
NA = {
    "N01": "A pure function of its input: no schedule, clock, I/O, fault or second party for a simulation to decide (input generation or proof would). Its consequences are covered where they reach the protocol, in C01, C02 and C14.",
    "N03": "Timing and memory residues are properties of the machine below the simulator, which replaces the clock and cannot observe caches or freed memory.",
}
checks = []
for p in sorted(T):
    checks.append({"property": p, "quick_cmd": "./run.sh check %s" % p, "thorough_cmd": "VERIF_TIER=thorough ./run.sh check %s" % p,
                   "evidence_file": "evidence/%s.json" % p, "technique": "deterministic simulation with fault injection: " + T[p][0],
                   "level": "exploration", "level_note": T[p][1] + " Trusts the reference implementation (checked against the "
                   "published vectors) and the simulator's seams; a clean batch is evidence over the sampled seeds, not proof."})
m = {"version": 1, "setup_cmd": "./run.sh selftest", "checks": checks,
     "not_applicable": [{"property": p, "reason": r} for p, r in sorted(NA.items())],
     "notes": "Replay a reported violation with ./run.sh replay FILE. No hooks in /repo: every seam is at its dependencies (see DESIGN.md)."}
json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
