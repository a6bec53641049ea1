"""try.py FILE [VERSIONS]: programs separated by '#----' through VM and specification"""
import sys, re
import minicomp, record, tlc, collections
import os
TMO = int(os.environ.get("TMO", "120"))
VERS = [(2,4),(2,5),(2,6),(2,7),(3,1),(3,2),(3,3),(3,4),(3,5),(3,6),(3,7),(3,8),(3,9),(3,10)]
def pv(s):
    pp = s.endswith("p")
    return tuple(map(int, s.rstrip("p").split("."))), pp
def main():
    vers = [pv(v) for v in sys.argv[2].split(",")] if len(sys.argv) > 2 else [(v, False) for v in VERS]
    progs = []; ids = []
    for i, s in enumerate(open(sys.argv[1]).read().split("#----\n")):
        if not s.strip(): continue
        for v, pp in vers:
            try: co = minicomp.compile_source(s, "<t>", v, pp)
            except minicomp.Unsupported as e: continue
            progs.append({"code": co, "ver": v, "pypy": pp, "src": s}); ids.append("%d@%d.%d%s" % (i, *v, "p" if pp else ""))
    recs = record.record_all(progs)
    ok = []
    for i, p, r in zip(ids, progs, recs):
        if "error" in r: print("ERR", i, r)
        else:
            if r["plain"] != [r["rout"], r["rres"], r["left"]] or r["debug"] != r["plain"] or r["left"]:
                print("DIFF", i, r["rout"], r["rres"], r["plain"], r["debug"], r["left"], r["detail"], r["ddetail"])
            try: tlc.export(i, p, r, set())
            except tlc.Inexpressible as e: print("INEX", i, e); continue
            ok.append((i, p, r))
    v = {}
    todo = list(ok)
    for attempt in range(int(os.environ.get("TRIES", "8"))):
        v1, st, rc, text = tlc.check_batch([p for _, p, _ in todo], [r for _, _, r in todo], [i for i, _, _ in todo], keep="/tmp/w/batch.json", timeout=TMO)
        v.update(v1)
        m = re.findall(r"pid \|-> (\d+)", text)
        if rc == 0 or not m: break
        k = int(m[-1]) - 1
        e = text.index("Error:")
        i = todo[k][0]
        last = re.findall(r"cur = .*", text)
        v[i] = (0, "ERROR " + text[e:e+700].split("The behavior")[0].replace("\n", " ") + " " + last[-1] + " " + " ".join(re.findall(r"^[0-9]+\. Line.*", text, re.M)[-3:]))
        todo = [t for t in todo if t[0] not in v]
        if not todo: break
    bad = collections.defaultdict(list)
    n = 0
    for i, p, r in ok:
        x = v.get(i, (0, "no verdict"))
        if x[1] == "accepted": n += 1
        else: bad[i.split("@")[0]].append((i, x, r))
    for k, l in bad.items():
        print("=== prog", k)
        for i, x, r in l:
            print("  ", i, x, "|", r["rres"], r["detail"][:150].replace("\n"," ") if r["rres"] != "ok" else "")
    print("accepted", n, "of", len(ok), "states", st, "rc", rc)
    if rc or n == 0 or n + sum(map(len, bad.values())) != len(ok) or any("no verdict" == x[1] for l in bad.values() for _, x, _ in l):
        open("/tmp/w/tlc.out", "w").write(text); print("\n".join(l for l in text.splitlines() if "VERDICT" not in l)[:3000])
main()
