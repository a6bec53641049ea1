"""trygen.py KIND N [SEED] [VERS]: random programs of a kind through VM, spec (and host)"""
import sys, random, os, re
import minicomp, record, tlc, gen, collections
VERS = [((2,4),0),((2,5),0),((2,6),0),((2,7),0),((3,1),0),((3,2),0),((3,3),0),((3,4),0),((3,5),0),((3,6),0),((3,7),0),((3,8),0),((3,9),0),((3,10),0),((2,7),1),((3,6),1),((3,7),1),((3,9),1)]
import families
def host(src):
    import guest
    out = []
    def o(*a):
        out.append(",".join(guest.canon(x) for x in a))
    guest.P.log = out
    g = {"__name__": "__main__", "out": o, "P": guest.P, "PErr": guest.PErr}
    try: exec(compile(src, "<t>", "exec"), g); r = "ok"
    except SystemExit: r = "exc:SystemExit"
    except Exception as e: r = "exc:" + type(e).__name__
    return [out, r]
def main():
    kind = sys.argv[1]; n = int(sys.argv[2]); seed = int(sys.argv[3]) if len(sys.argv) > 3 else 1
    vers = VERS if len(sys.argv) < 5 else [(tuple(map(int, v.rstrip("p").split("."))), v.endswith("p")) for v in sys.argv[4].split(",")]
    progs = families.build(kind, n, seed, vers)
    if os.environ.get("ONLY"): progs = [p for p in progs if p["id"] == os.environ["ONLY"]]
    if os.environ.get("SHOW"):
        for p in progs: print("#----", p["id"]); print(p["src"])
    recs = record.record_all(progs)
    ok = []; import time
    t0 = time.time()
    for p, r in zip(progs, recs):
        if "error" in r: print("ERR", p["id"], r); continue
        cmp_ = [r["rout"], r["rres"], r["left"]]
        for m in ("plain", "debug"):
            if m in r and r[m] != cmp_ and not p.get("policy"): print("DIFF", p["id"], m, cmp_[1:], r[m][1:], r.get(m[0]+"detail", "")[:300])
        if r["left"]: print("LEFT", p["id"], r["left"], r["rres"], r["detail"][:200])
        if p["ver"] >= (3, 3) and not p.get("policy") and "src" in p and not p.get("nohost"):
            h = record.in_child(host, p["src"])
            if isinstance(h, list) and h != cmp_[:2]:
                k = next((i for i, (a, b) in enumerate(zip(h[0], cmp_[0])) if a != b), min(len(h[0]), len(cmp_[0])))
                print("HOST", p["id"], k, h[0][k:k+2], h[1], "|", cmp_[0][k:k+2], cmp_[1])
        try: tlc.export(p["id"], p, r, set())
        except tlc.Inexpressible as e: print("INEX", p["id"], e); continue
        ok.append((p["id"], p, r))
    v = {}; todo = list(ok); t1 = time.time()
    for attempt in range(int(os.environ.get("TRIES", "6"))):
        v1, st, rc, text = tlc.check_batch([p for _, p, _ in todo], [r for _, _, r in todo], [i for i, _, _ in todo], keep="/tmp/w/batch.json", timeout=int(os.environ.get("TMO", "200")))
        v.update(v1)
        m = re.findall(r"pid \|-> (\d+)", text)
        if rc == 0 or not m: break
        k = int(m[-1]) - 1
        e = text.index("Error:")
        i = todo[k][0]
        last = re.findall(r"cur = .*", text)
        v[i] = (0, "ERROR " + text[e:e+900].split("The behavior")[0].replace("\n", " ") + " " + last[-1] + " " + " ".join(re.findall(r"^[0-9]+\. Line.*", text, re.M)[-3:]))
        todo = [t for t in todo if t[0] not in v]
        if not todo: break
    n = 0; steps = 0
    for i, p, r in ok:
        x = v.get(i, (0, "no verdict")); steps += x[0]
        if x[1] == "accepted": n += 1
        else: print("REJ", i, x, "|", r["rres"], r["detail"][:150].replace("\n", " ") if r["rres"] != "ok" else "")
    print("accepted", n, "of", len(ok), "built", len(progs), "states", st, "rc", rc, "tlc %.1f" % (time.time() - t1), "hangs", sum(r["rres"] == "hang" for _, _, r in ok), "steps", steps)
    if rc or len(v) != len(ok):
        open("/tmp/w/tlc.out", "w").write(text); print("\n".join(l for l in text.splitlines() if "VERDICT" not in l)[:3000])
if __name__ == "__main__": main()
