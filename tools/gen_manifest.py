#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from properties.jsonl and the table below."""
import json, os
here=os.path.dirname(os.path.abspath(__file__)); root=os.path.join(here,"..")
props=[json.loads(l) for l in open(os.path.join(root,"properties.jsonl"))]
REF="an independent reference of the instruction set (harness/ref, a_ref.go)"
T={
"T01":("runtime monitoring: panic, hang and memory watchdog over hostile inputs","panics, hangs (90 s) and memory growth are detected on the executed inputs"),
"T02":("Go race detector plus repeat/concurrent/fresh-process result comparison under stress schedules","races and divergences on the schedules the stress runs produced; the shared tables are fingerprinted before and after"),
"L01":("runtime monitor: token trace checked against an independent scanner and byte coverage","trusts the reference scanner in harness/a_ref.go"),
"L02":("runtime monitor: listing checked per line against an independent analyser","trusts "+REF),
"D01":("runtime monitor: well-formedness assertion on every diagnostic produced","needs no reference beyond the published rule list"),
"P01":("runtime monitor: per-line verdict and recorded operands against an independent operand model","trusts "+REF),
"P02":("runtime monitor: recorded bytes against an independent decoder","trusts the reference decoder in harness/a_ref.go"),
"P03":("runtime monitor: every opcode x version x mode observed against a reference table","trusts "+REF+"; the opcode/version/mode space is covered completely in every run"),
"P04":("runtime monitor: every field-taking opcode x field x version observed against a reference table","trusts "+REF+"; the named-field space is covered completely in every run"),
"P05":("runtime monitor: print/re-analyse round trip of the real code","metamorphic: compares two runs of the code under test, rendered canonically"),
"S01":("runtime monitor: symbol and reference tables against an independent analyser","trusts "+REF),
"N01":("runtime monitor: lint findings against an independent rule evaluation","trusts the rule evaluation in harness/a_ref.go"),
"N02":("runtime monitor: lint findings against an independent rule evaluation","trusts the rule evaluation in harness/a_ref.go"),
"N03":("runtime monitor: directive findings against an independent rule evaluation","trusts the rule evaluation in harness/a_ref.go"),
"O01":("runtime monitor: lock-step (bisimulation) trace comparison of original and optimised listings","complete over the finite control-flow product of each generated program"),
"O02":("runtime monitor: every optimised listing is searched for what the optimiser exists to remove","structural facts about the output, relative to the input listing"),
"B01":("runtime monitor: build/print/re-analyse round trip of randomly built programs","operands and expected instructions come from the generator, reading back from the code under test"),
"V01":("online monitor in lock step with a model machine","trusts the model machine in harness/vmmodel.go"),
"V02":("online monitor in lock step with a model machine; path set against explicit path enumeration","trusts the model machine and path enumerator"),
"V03":("online monitor of budget, cost and step count","trusts the cost table in harness/ref"),
"V04":("online monitor of breakpoint histories against a model machine","trusts the model machine in harness/vmmodel.go"),
"V05":("online monitor of call frames and stacks against a model machine","trusts the model machine in harness/vmmodel.go"),
"J01":("trace checker over recorded JSON-RPC sessions (exactly-once, order, framing)","the verdict covers the recorded sessions"),
"J02":("fault injection (truncation, failing reader/writer, hostile bytes) under a crash and hang monitor","truncations at every byte of the generated sessions"),
"J03":("offline comparison of long-lived sessions with fresh servers","metamorphic: the fresh server is the oracle"),
"J04":("runtime monitor: diagnostics responses against direct analysis","the analysis itself is the oracle (its own correctness is decided by the other properties)"),
"J05":("runtime monitor: navigation responses at every position against an independent symbol table","trusts "+REF),
"J06":("runtime monitor: decoded token stream against an independent token classifier","trusts "+REF),
"J07":("runtime monitor: every offered action executed, its edits applied and re-analysed","trusts "+REF+" for what must stay unchanged"),
"J08":("runtime monitor: responses at every position against an independent reference and by re-analysis","trusts "+REF),
"J10":("runtime monitor: announced capabilities against the configuration and against what sessions get served, all other answers against an unconfigured server","hints are judged by "+REF),
"J09":("runtime monitor: formatted text compared with the original token by token","trusts the reference scanner in harness/a_ref.go"),
"K01":("trace checker over recorded debug sessions, fault injection, crash and hang monitor","the verdict covers the recorded sessions"),
"K02":("trace checker of debug sessions against a mirror simulation","the mirror is the simulator API (its own correctness is decided by V01-V05)"),
"C01":("runtime monitor: output of the real commands over generated files against reference tokens and direct analysis","the findings' oracle is the library itself; the tokens' oracle is the reference reader"),
"R01":("runtime monitor: scanner output over generated file trees against direct analysis","the analysis itself is the oracle"),
}
import re
done=set()
for f in os.listdir(os.path.join(root,"harness")):
    if f.endswith(".go"):
        done|=set(re.findall(r'ID:\s+"([A-Z]\d\d)"',open(os.path.join(root,"harness",f)).read()))
checks=[];na=[]
for p in props:
    i=p["id"]
    if i in done:
        t,n=T[i]
        checks.append(dict(property=i,quick_cmd=f"./check.sh {i}",thorough_cmd=f"VERIF_TIER=thorough ./check.sh {i}",evidence_file=f"evidence/{i}.json",technique=t,level="exploration",level_note=n))
    else:
        na.append(dict(property=i,reason="check under construction"))
m=dict(version=1,setup_cmd="./setup.sh",checks=checks,not_applicable=na,notes="No hooks: the monitors use the exported API, the wire protocols and the built commands, and are compiled together with /repo's working tree by every check.")
json.dump(m,open(os.path.join(root,"MANIFEST.json"),"w"),indent=1); open(os.path.join(root,"MANIFEST.json"),"a").write("\n")
print(len(checks),len(na))
