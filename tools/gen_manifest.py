#!/usr/bin/env python3
"""Writes MANIFEST.json from the checks that exist."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from vlib import checks

NOTE = {
    "C01": "one instruction per case over operand lattices, all shift amounts, aliasing; the whole observable state compared with the TLA+ step",
    "C02": "special-operand lattice squared and random operands for every M instruction; word arithmetic itself model checked (MCWord) in thorough",
    "C03": "exhaustive: all 49152 16-bit encodings on both XLENs, operands sampled",
    "C04": "operand lattice for every AMO, all aliasings, misaligned/unmapped/device/page/PMP faults; sampled",
    "C05": "random histories of LR/SC/stores/AMOs/traps/faults with batch boundaries hit exactly and off by one; sampled",
    "C06": "every offset bit, extreme and zero offsets, self-jumps, ends of the address space, jump chains; sampled operands",
    "C07": "every width, alignment, sign and offset edge, stack-pointer forms, ends of DRAM, overlapping access mixes; sampled values",
    "C08": "every (opcode, funct3, funct7) and every SYSTEM immediate on both XLENs; remaining fields sampled",
    "C09": "every fault kind for every faulting instruction class, then repaired and re-executed; sampled operands",
    "C10": "every cause x mode x delegation pattern, status and vectors sampled",
    "C11": "all combinations of instruction, mode, TSR, TVM, MPP, SPP and the four interrupt-enable bits; epc sampled",
    "C12": "all 4096 CSR addresses in all modes, forms sampled; special CSRs with all forms and counter enables",
    "C13": "every bit of every view from both sides, random RMW sequences; values sampled",
    "C14": "exhaustive over pending-and-enabled x delegation x mode x global enables (49152), plus sequences",
    "C15": "histories of CLINT accesses, pokes and batch boundaries exact and off by one, 64-bit edge values; sampled",
    "C16": "all 256 PTE flag bytes x access x mode x SUM x MXR, walk shapes, every VPN and PPN bit; levels and addresses sampled",
    "C17": "every matching mode x permission x lock x access mode at region edges, random 16-entry files; sampled",
    "C18": "every device edge and single-bit address change x every access kind and width; interior sampled",
    "C19": "every source through a claim/complete life cycle, random controller histories; sampled",
    "C20": "random controller histories with the pending bits compared before every instruction; sampled",
    "C21": "every byte value out, in and looped back, every register, queue limits, random histories; sampled",
    "C22": "random histories of UART accesses and arrivals with the line observed through the PLIC; sampled",
    "C23": "random and enumerated host requests against the HTIF specification, and real runs of the binary; sampled",
    "C24": "random system-call histories on a scratch directory against the descriptor-table and file specification; sampled",
    "C25": "generated ELF files of both classes, images placed and compared with the loader specification; sampled",
    "C26": "reset state and boot ROM executed by the specification; the device tree parsed and checked by the specification",
    "C27": "slots x kinds x modes x accesses, all types and match modes; addresses sampled",
    "C28": "random instructions, CSR values, page tables, device accesses; every step also compared; sampled",
    "C29": "random programs of eight kinds, every step compared; sampled",
    "C30": "argument vectors of all shapes and limits around the exact size against the specification; sampled",
    "C31": "samples of the other checks' executions repeated at each log level, every step and the output compared; sampled",
    "C32": "generated ELF files and instruction encodings, every printed line compared with the specification; sampled",
    "C33": "a sample of the other checks' executions and of host calls logged at info, debug and trace, and the diff log at its threshold; each step's lines computed by the specification",
    "C34": "generated command lines, understood by the specification; the guest reports what it was given; sampled",
}
TECH = {
    "C14": "TLA+ specification; trace validation with TLC of recorded executions, exhaustive over the input combinations",
}
DEFAULT = "TLA+ specification of the machine; TLC trace validation of executions recorded from the real emulator"

props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
out = {
    "version": 1,
    "setup_cmd": "python3 check.py --setup",
    "hooks": {"guard": "cfg(carron_verif)",
              "enable": "RUSTFLAGS='--cfg carron_verif' when building /verif/harness (path dependency on /repo)",
              "source_commits": ["81ba2bf"]},
    "checks": [], "not_applicable": [],
    "notes": "check.py <property> [quick|thorough]; evidence in evidence/; replay files are scenarios for check.py --replay",
}
for p in props:
    i = p["id"]
    if i in checks.CHECKS:
        out["checks"].append({
            "property": i, "quick_cmd": "python3 check.py %s quick" % i, "thorough_cmd": "python3 check.py %s thorough" % i,
            "evidence_file": "evidence/%s.json" % i, "technique": TECH.get(i, DEFAULT), "level": "model_checking",
            "level_note": NOTE[i]})
    else:
        out["not_applicable"].append({"property": i, "reason": "its check is still being built"})
with open(os.path.join(V, "MANIFEST.json"), "w") as f:
    json.dump(out, f, indent=1)
    f.write("\n")
