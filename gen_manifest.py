"""Writes MANIFEST.json from the table of suites (run after adding one)."""
import json
import subprocess

LEVEL = "model_checking"
NOTE = {
    "text": "OcaText is a reader of the OCAFILE language written in TLA+; TLC checks that it reads every layout of every command (spec/MC_Text, up to the bound) and that the file rule agrees with its plain reading (spec/MC_Rule, all sequences up to the bound); those texts, random ones and damaged ones are parsed, printed and passed through JSON by the real code and every result is validated against OcaText with TLC",
    "model": "TLC checks spec/MC_Model (all command sequences of the content alphabet up to the bound: the change model replays every build; entry chains of an object run through all its versions); its behaviours, random files extending each other and histories of a store are built by the real code, and every entry of every change model, and every entry the store keeps afterwards, is validated against OcaModel with TLC",
    "robust": "TLC checks spec/MC_Session (all pairs of 29 calls and 5 kinds of input, against well-behaved and four kinds of ill-behaved libraries: every ended, forgetful, half-done or moody answer is judged as meant); its behaviours choose the calls and kinds of input of recorded sessions with the real library, and every call, what it answered when asked again and what the store answers afterwards is validated against OcaSession with TLC",
    "transf": "TLC checks spec/MC_Transform (every file of up to three lines of meta data and commands in three layouts: the reading gives what was written, the built map is the last word on every attribute, a file is of one kind); its behaviours, random and damaged files are parsed, built, written as JSON and combined with bundles by the real code and every result is validated against OcaTransform with TLC",
    "storage": "TLC checks spec/MC_Storage (all sequences of puts, gets, listings and reopenings on several handles, namespaces and keys up to the bound); its behaviours and seeded random ones, with awkward keys and values, are replayed in the real memory, sled and file-system back ends and every answer is validated against OcaStorage with TLC",
    "dag": "TLC checks spec/MC_Dag (all small graphs and all histories of builds up to the bound: every kept content has a finite chain that replays to it); its behaviours and random graphs and histories are replayed in the real oca-dag crate (memory and sled) and every link, chain and recorded object is validated against OcaDag with TLC",
    "gen": "TLC checks spec/MC_Content with OcaGen (for every reachable content there are commands that build exactly it); every bundle of the model's behaviours, of random files and of store histories is printed by the real code as commands, as text and as its history, the commands are judged by the fold and the texts built again, validated with TLC",
    "valid": "TLC checks spec/MC_Validator (every way to tamper with small bundles up to the bound, all translation states) or spec/MC_Cond (every condition of up to four tokens against a second definition of its meaning); recorded verdicts of the real validator on built, tampered and translated bundles and recorded evaluations of the model's conditions are validated against OcaValidator/OcaCond with TLC",
    "store": "TLC checks spec/MC_Store (all histories of builds and validations of 19 files up to the bound; history, listing, relation, dependency, name and idempotence invariants), replays its behaviours in the real facade and validates those and seeded random histories, every query included, against OcaStore with TLC",
    "crash": "TLC checks spec/MC_Crash (builds as single writes, a crash before any of them, restart; refinement of OcaStore); the real facade is cut off at every one of its key-value and SQL writes and the recorded answers before and after rebuilding are validated against OcaStore with TLC",
    "content": "TLC checks spec/MC_Content exhaustively (all command sequences over a fixed alphabet up to the bound, 10 invariants), then replays its behaviours and seeded random files into the real library and validates every recorded build, reload and continuation against OcaContent with TLC",
}
BUILT = {"content": ["C01", "C02", "C03", "C04", "C05"], "store": ["C11", "C12", "C13", "C14", "C15", "C17", "C19", "C20"], "crash": ["C18"], "valid": ["C22", "C23", "C24"], "gen": ["C06"], "storage": ["C21"], "dag": ["C25"], "text": ["C07", "C08", "C09"], "transf": ["C26"], "model": ["C16"], "robust": ["C10"]}
HOOKS = {"guard": "cfg(oca_conform)", "enable": "RUSTFLAGS=--cfg oca_conform (set by lib/common.py when the check of C18 builds the harness)", "source_commits": ["fa51835"]}


def main():
    props = [json.loads(l) for l in open("properties.jsonl")]
    suite = {p: s for s, ps in BUILT.items() for p in ps}
    checks = []
    na = []
    for p in props:
        pid = p["id"]
        if pid in suite:
            checks.append({"property": pid, "quick_cmd": "python3 run.py %s --tier quick" % pid, "thorough_cmd": "python3 run.py %s --tier thorough" % pid,
                           "technique": "TLA+ specification checked with TLC; trace validation and behaviour replay against the real code (spec suite: %s)" % suite[pid],
                           "level": LEVEL, "level_note": NOTE[suite[pid]]})
        else:
            na.append({"property": pid, "reason": "the specification for it is not bound to the code yet"})
    m = {"version": 1, "setup_cmd": "true", "hooks": HOOKS, "checks": checks, "not_applicable": na,
         "notes": "python3 run.py <property> --replay out/<file>.json runs one recorded script again"}
    json.dump(m, open("MANIFEST.json", "w"), indent=1)
    open("MANIFEST.json", "a").write("\n")


main()
