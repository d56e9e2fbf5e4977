#!/usr/bin/env python3
"""Writes MANIFEST.json."""
import json, os, subprocess
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NET = ("Sampled: holds on the generated cases, not on all. Trusts the simulated datagram network and clock (testing/synctest), "
       "the independent protocol implementation in harness/wire.go and peer.go, and that bubble scheduling explores enough interleavings.")
REAL = "Sampled: holds on the generated cases, not on all; real clock, so timing-dependent interleavings vary between runs. "
PBT = "property-based testing (rapid), "
T = {
 "C01": (PBT+"stateful, generated network faults on a simulated clock; oracle: sent sequence", NET),
 "C02": (PBT+"generated sizes, limits and faults; oracle: round trip and bytes captured on the wire", NET),
 "C03": (PBT+"generated acknowledgement behaviour of a reference peer; oracle: timed model of the retransmissions in the capture", NET),
 "C04": (PBT+"generated acknowledgement behaviour and timeouts; oracle: model of the delivery outcome", NET),
 "C05": (PBT+"generated traffic across the number wrap and a distance law over all pairs of classes; oracle: sent sequence", NET+" Packet counters are preset through reflection; if that is impossible a full run of 2^20 packets is made instead."),
 "C06": (PBT+"generated handshake faults, clients and mutual connects; oracle: model of which connects may fail, end state agreement", NET),
 "C07": (PBT+"generated idle times and blackouts; oracle: model of liveness from the arrivals", NET),
 "C08": (PBT+"generated teardown interleavings and reconnects; oracle: invariants over the event history", NET),
 "C09": (PBT+"generated many-peer histories with per-peer faults; oracle: per-channel models", NET),
 "C10": ("fuzzing: random, structured and mutated datagrams in all protocol states; oracle: the node keeps working, no event from junk", NET),
 "C11": (PBT+"generated sessions, capture searched, packets tampered with; oracle: the original messages", NET),
 "C12": (PBT+"differential against an independent implementation of the protocol; codec round trips", NET),
 "C13": (PBT+"generated histories; oracle: statistics recomputed from the wire capture and the events", NET),
 "C14": (PBT+"generated Listen/Dial histories; oracle: model of accepted connections and message streams", NET),
 "C15": (PBT+"generated concurrent senders; oracle: per-sender sequences", NET),
 "C16": ("fuzzing of concurrent API programs under the race detector; oracle: no race report, no deadlock, no crash", NET+"The race detector sees only accesses which happened in a run."),
 "C17": (PBT+"generated API programs inside callbacks; oracle: each call's normal effect", NET),
 "C18": (PBT+"generated punch datagrams; oracle: the datagrams which arrived", NET),
 "C19": (PBT+"generated sequences of logger operations; oracle: reference model of level and filter", REAL),
 "C20": (PBT+"generated menus and key sequences on a pseudo-terminal; oracle: reference model of the menu", REAL),
 "C21": (PBT+"generated keys, terminal attributes and sizes on a pseudo-terminal; oracle: bytes sent and attributes before", REAL),
 "C22": (PBT+"generated node histories ended by Close; oracle: event and datagram history, goroutines left", NET),
 "C23": (PBT+"generated arrival orders from a reference peer; oracle: reference receiver, step by step", NET),
}
have = subprocess.run(["grep", "-rhoP", r'ID:\s+"\KC\d\d', os.path.join(root, "harness")], capture_output=True, text=True).stdout.split()
ids = [json.loads(l)["id"] for l in open(os.path.join(root, "properties.jsonl"))]
m = {"version": 1,
     "setup_cmd": "./setup.sh",
     "hooks": {"guard": "verif", "enable": "go test -tags verif (check.sh)", "source_commits": [
         subprocess.run(["git", "-C", "/repo", "log", "--format=%H", "--grep=^verif:"], capture_output=True, text=True).stdout.split()[0]]},
     "checks": [], "not_applicable": []}
for i in ids:
    if i in have:
        m["checks"].append({"property": i, "quick_cmd": f"VERIF_TIER=quick ./check.sh {i}", "thorough_cmd": f"VERIF_TIER=thorough ./check.sh {i}",
                            "evidence_file": f"evidence/{i}.json", "technique": T[i][0], "level": "exploration", "level_note": T[i][1]})
    else:
        m["not_applicable"].append({"property": i, "reason": "the check is not built yet"})
json.dump(m, open(os.path.join(root, "MANIFEST.json"), "w"), indent=1)
print(len(m["checks"]), "checks")
