#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl."""
import json, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(root, 'properties.jsonl'))]
ORACLE = {
 'P01': 'exact-rational sum of all claims vs. vault balances after every transaction; everybody-exits probe in random order; monotone slack',
 'P02': 'step-by-step refinement of an independent big-integer reference model of the curve',
 'P03': 'balance and price bounds per swap, refinement of the model, round-trip probe by one trader on a copy of the world',
 'P04': 'bounds recomputed from balance changes with stale quotes, delayed and reordered delivery',
 'P05': 'shadow fee accounts per position, segment by segment in exact arithmetic, against what each can collect; split/poke twin worlds',
 'P06': 'shadow protocol-fee account and refinement of the model',
 'P07': 'tick table, bitmap and active liquidity recomputed from the set of positions after every transaction',
 'P08': 'tick recomputed from the price after every transaction; only swaps may move it',
 'P09': 'conservation of every party\'s value against the set of signers, under forged accounts, data and signers',
 'P10': 'per-range sums of NFT liquidity vs. custody, shadow NFT accounts, exits of all holders',
 'P11': 'vault receipts vs. model under scripted byzantine payers and failing token calls',
 'P12': 'lock state after every commit and abort; re-entering calls with the runtime\'s own ban switched off',
 'P13': 'integrals recomputed by the simulator\'s clock against the stored accumulators',
 'P14': 'ring walk and shadow list of partitions after every write',
 'P15': 'time in range integrated by the simulator against differences of real snapshots',
 'P16': 'footprint of every transaction; both orders of concurrent transactions on different pools',
 'P17': 'every owner leaves on a copy of the world, at random points of hostile histories',
 'P18': 'after faults stop: rebuilt swaps, deposits and ring growth must succeed within one attempt each; hang watchdog',
 'P19': 'creation, closing and re-creation against the model; identity of every record followed over the history',
 'P20': 'events against state and balance changes; pool and positions rebuilt from events alone',
 'P21': 're-execution at once, later, on other forks, after restarts, and of whole runs in other processes in other orders; aborts at every inner call leave no trace',
 'P22': 'mint supply, authority and metadata followed over the history under hostile minting attempts',
 'P23': 'tokens taken and credited against the exact worth of the liquidity in big-integer arithmetic; there-and-back probe on a copy of the world',
 'P24': 'amounts owed, requested, paid and left balanced for every collection, and growth of what is owed against shadow fee accounts, over the history',
}
checks = []
for p in props:
    i = p['id']
    checks.append(dict(
        property=i,
        quick_cmd=f'./check.sh {i}',
        thorough_cmd=f'VERIF_TIER=thorough ./check.sh {i}',
        technique='deterministic simulation with fault injection (seeded schedules of the real program on an in-process runtime): ' + ORACLE[i],
        level='exploration',
        level_note='Seeded search: evidence over the runs counted in the evidence file, not a proof. Runs the real program natively; trusts the in-process stand-in for the Solana runtime and the reference model or shadow accounts named in the technique. Arithmetic wraps as in the shipped build.',
        evidence_file=f'evidence/{i}.json',
    ))
m = dict(version=1, setup_cmd='./build.sh',
         hooks=dict(guard='none', enable='no hooks are needed: the simulator uses the seams solana-program already has (SyscallStubs, AccountInfo)', source_commits=[]),
         checks=checks, not_applicable=[],
         notes='All checks: VERIF_SEED selects the runs; replay a reported file with ./replay.sh FILE. Defects found and repaired, and the one known finding, are in known-findings.json.')
json.dump(m, open(os.path.join(root, 'MANIFEST.json'), 'w'), indent=1)
