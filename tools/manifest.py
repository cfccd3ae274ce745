#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from properties.jsonl and the list below."""
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = [json.loads(l)["id"] for l in open(os.path.join(here, "properties.jsonl"))]
TR = "TLA+ specification; traces recorded from the real code validated against it with TLC"
MT = "TLA+ specification model checked with TLC; its state graph walked in the real code, recorded traces validated against it"
mach = ("Every recorded step of the real editor (line, cursor, calls, results, files) is compared with the machine of "
        "spec/Machine.tla; the small instance is explored completely. Assumes what the harness observes through the "
        "public API is what happens, and TLC.")
scr = ("Everything written to the terminal is interpreted by spec/Screen.tla and compared with what the machine says the "
       "screen has to show after every event. Assumes a terminal with automatic margins that scrolls without losing rows.")
MS = "TLA+ specification of the session and of its goroutines, model checked with TLC; recorded sessions of the real editor validated against it"
sess = ("What the real editor does in thousands of sessions (calls, reads, raw mode, Close at every point where the code "
        "calls out) is compared with the monitors of spec/Session.tla and spec/Machine.tla; schedules between those points are sampled, "
        "those of the goroutine model are explored completely.")
sin = ("What the real wrappers do with goroutines that read, write and close, in thousands of schedules, is compared with the "
       "monitors of spec/Stdin.tla; the goroutine model is explored completely.")
claimed = {
 "C01": (MT, mach), "C02": (MT, mach), "C03": (TR, mach), "C04": (TR, mach), "C05": (MT, mach), "C06": (MT, mach),
 "C07": (MT, mach), "C08": (TR, mach), "C10": (MT, mach), "C11": (MT, mach), "C13": (TR, scr),
 "C09": (MT, "Every instant at which a process can die and every failing file operation of the real code is observed with a hooked syscall package and compared with spec/HistFile.tla; a crash is that of the process, not of the machine."),
 "C12": (MT, "Every answer of the real completers on the generated trees and lines is compared with spec/Completers.tla."),
 "C18": (TR, scr), "C19": (TR, scr), "C24": (TR, mach),
 "C14": (MS, sess), "C15": (MS, sess), "C16": (MS, sess), "C17": (MS, sess),
 "C21": (TR, mach + " The wrapper itself is also checked alone against spec/Stdin.tla."), "C22": (MT.replace("its state graph walked in the real code, ", ""), sin),
 "C20": (MT.replace("its state graph walked in the real code, ", ""), "Thousands of sessions of the real server and client, over connections that split, delay and fail and over loopback sockets, are compared with the monitors of spec/Remote.tla and spec/RemoteNet.tla; schedules are sampled, those of the goroutine model are explored completely."),
 "C23": (TR, "The machine of spec/Machine.tla is total: it answers every key in every state, so a crash or a hang of the real editor on the generated widths, prompts, candidates and bytes is a deviation from it; everything else the editor does there is compared too."),
 "C28": (MT.replace("its state graph walked", "all its sequences of calls made"), "All sequences of up to 4 (thorough: and a third of those of 5) calls, which TLC prints from spec/TtyMC.tla, and longer random ones are made on a real pseudo terminal; the mode after every call, what was returned and what was shown are compared with spec/Tty.tla. Assumes Linux's line discipline."),
 "C29": (TR, mach + " Every run is a process of its own, since the shared editor lives as long as the process."),
 "C30": (TR, "The real editor runs as a job on a pseudo terminal of its own; how often it stops, the mode of the terminal meanwhile, and every recorded step are compared with spec/Machine.tla and spec/Screen.tla. Assumes Linux's job control."),
 "C25": (TR, mach), "C26": (TR, mach), "C27": (TR, mach),
}
na = {}
m = {"version": 1, "setup_cmd": "./setup.sh",
     "checks": [{"property": i, "quick_cmd": f"./check.sh {i} quick", "thorough_cmd": f"./check.sh {i} thorough",
                 "technique": claimed[i][0], "level": "model_checking", "level_note": claimed[i][1]}
                for i in ids if i in claimed],
     "not_applicable": [{"property": i, "reason": na.get(i, "the check is not built yet")} for i in ids if i not in claimed],
     "notes": "TLA+/TLC. No hooks in /repo: the harness uses the public API only. fix: commits are listed in known-findings.txt."}
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(here, "MANIFEST.json"), "a").write("\n")
