"""Generates properties.jsonl and MANIFEST.json from one table (run by hand after editing)."""
import json
import os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def p(id, title, statement, over, qtext, why, files, mech, claimed=True, technique="", level="other", note="", na="", state=(), observe=()):
    P.append(dict(id=id, title=title, statement=statement, over=over, qtext=qtext, why=why, files=files, mech=mech,
                  claimed=claimed, technique=technique, level=level, note=note, na=na, state=state, observe=observe))


PUB = ["src/fnft_nsev.c", "src/fnft_nsep.c", "src/fnft_kdvv.c", "src/fnft_manakovv.c", "src/fnft_nsev_inverse.c"]
PRIV = ["src/private", "include/private/fnft__fft_wrapper.h", "src/3rd_party/kiss_fft"]
ENGINE = ("path-sensitive interprocedural abstract interpretation of the LLVM IR of the library, every allocation and "
          "every called routine allowed to fail; ")

exec(open(os.path.join(V, "notes", "table.py")).read())

with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for q in P:
        a = dict(files=q["files"], mechanism=[dict(name=n, where=w) for n, w in q["mech"]])
        if q["state"]:
            a["state"] = [dict(name=n, meaning=m, where=w) for n, m, w in q["state"]]
        if q["observe"]:
            a["observe_at"] = list(q["observe"])
        a["hook_needed"] = None
        f.write(json.dumps(dict(id=q["id"], title=q["title"], statement=q["statement"],
                                quantifier=dict(over=q["over"], text=q["qtext"]), why_tests_cant=q["why"], anchors=a)) + "\n")
        assert len(q["title"]) <= 80, q["title"]
man = dict(version=1, setup_cmd="sh setup.sh", checks=[], not_applicable=[])
for q in P:
    if q["claimed"]:
        man["checks"].append(dict(property=q["id"], quick_cmd="python3 check.py " + q["id"],
                                  thorough_cmd="python3 check.py %s --thorough" % q["id"],
                                  technique=q["technique"], level=q["level"], level_note=q["note"]))
    else:
        man["not_applicable"].append(dict(property=q["id"], reason=q["na"]))
json.dump(man, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(P), "properties,", len(man["checks"]), "claimed")
