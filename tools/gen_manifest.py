import json,os,sys
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T={
"C01":"bounded exhaustive input enumeration (covering arrays) of the real code against an executable reference model",
"C02":"exhaustive control word enumeration (covering arrays) of the real code against an executable reference model",
"C03":"exhaustive batch/content enumeration of the real code, differential against single-packet calls and reference model",
"C04":"exhaustive enumeration of lengths, flavours and call orders on the real code",
"C05":"exhaustive enumeration of batch sizes and slot pairs on the real code",
"C06":"exhaustive enumeration of (maximum length, length, slot) on the real code against the reference model",
"C07":"exhaustive length enumeration on the real code against the reference model",
"C08":"exhaustive enumeration of lengths and placements with guard pages and canaries around every object",
"C09":"explicit-state model checking of the implementation: reachable concrete states to a fixed point, plus all call sequences to a depth",
"C10":"stateless model checking of the implementation: all schedules up to a preemption bound under a controlled scheduler",
"C11":"exhaustive fault enumeration over allocation histories of the implementation",
"C12":"exhaustive enumeration of alignments and prior memory/register contents on the real code",
"C13":"exhaustive enumeration of build configurations x common workload against one reference",
"C14":"exhaustive enumeration of maximum lengths on the real code",
"C15":"exhaustive enumeration of calls x processor states with state comparison around each call",
"C17":"stateless model checking of the implementation: nested calls injected at every executed instruction under single-stepping",
"C18":"exhaustive enumeration of the bounded workload on the real code with every basic block counted: bounded liveness of each call",
"C19":"exhaustive enumeration of the bounded workload and allocation faults on the real code with every system call trapped",
"C20":"crash point enumeration on the real code: calls left at enumerated instructions and memory accesses, in copies of the process, followed by every operation",
"C16":"exhaustive enumeration of the bounded workload under address/undefined-behaviour monitors",
}
N={
"C01":"Every result of the enumerated executions of the real library is compared with an independent reference model; exhaustive over all pairs (and triples up to the bound) of byte values, not over all 2^64 keys.",
"C02":"As C01 for key setup, both flavours, all configurations.",
"C03":"Exhaustive within the stated arrays in every official configuration, cross builds under qemu.",
"C04":"Exhaustive over lengths and flavour combinations for the stated contents.",
"C05":"Exhaustive over batch sizes and slot pairs for the stated contents.",
"C06":"Exhaustive over maximum and packet lengths on slot strides.",
"C07":"Exhaustive over short lengths and power-of-two neighbourhoods, plus single lengths above 2^31.",
"C08":"Reads and writes beyond the permitted bytes fault or are compared; reads inside the same page are caught by placing objects at both ends of accessible memory.",
"C09":"Complete over histories of any length for the stated contexts, words and packets, assuming contexts and library memory are all the state.",
"C10":"All schedules within the preemption bounds for the enumerated two/three thread programs; sequential consistency.",
"C11":"All failure subsets in all histories up to the depth; every allocation tracked in a guarded arena.",
"C12":"Exhaustive over alignments, the fill alphabet and the list of ambient conditions.",
"C13":"All buildable configurations (native, aarch64, ppc64, ppc32 under qemu); Altivec cannot be built.",
"C14":"Exhaustive over the stated value sets (thorough: all 2^32).",
"C15":"Complete processor state comparison around each call for the enumerated calls.",
"C17":"Complete over interruption points of the enumerated calls in the x86 configurations (single-stepped by the processor) at one level of nesting; deeper nesting at chosen instructions.",
"C18":"Bounded liveness: each enumerated call must return within a number of basic blocks linear in its bytes (about 120 times what it takes today), and within 1 MB of stack; calls that wait without using the processor are caught by a watchdog.",
"C19":"Syscall user dispatch on x86-64; what a call does without a system call is compared for the environment, locale, signal mask, stdio buffers and buffering, random() and lrand48().",
"C20":"Every 3rd (parallel processing: every 300th) instruction as point of abandonment, and the first access to each page of each object; native x86 configurations.",
"C16":"Monitors run on every enumerated execution; trusts the sanitizers' detection.",
}
checks=[]
for i in range(1,21):
    p="C%02d"%i
    checks.append(dict(property=p,quick_cmd="python3 mc/run.py %s --tier quick"%p,thorough_cmd="python3 mc/run.py %s --tier thorough"%p,
      evidence_file="evidence/%s.json"%p,technique=T[p],level="model_checking",level_note=N[p]))
json.dump(dict(version=1,setup_cmd="python3 mc/run.py --setup",checks=checks,not_applicable=[],
  notes="No hooks in /repo: all instrumentation happens at build time from /verif. Design and results: DESIGN.md. Replay a violation with python3 mc/run.py --replay FILE."),open(V+"/MANIFEST.json","w"),indent=1)
