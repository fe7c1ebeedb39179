"""tools/mkseed.py SPEC.py  -  writes seeded/<id>/ from a spec: NAME, PROPERTY, NEEDS, BREAKS, EDITS=[(file, old, new)], DEMO."""
import json, os, runpy, shutil, subprocess, sys, tempfile

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def make(s):
    d = os.path.join(V, "seeded", s["NAME"])
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    w = tempfile.mkdtemp()
    files = sorted({e[0] for e in s["EDITS"]})
    subprocess.run(["git", "init", "-q", w], check=True)
    for f in files:
        os.makedirs(os.path.dirname(f"{w}/{f}"), exist_ok=True)
        shutil.copy(f"/repo/{f}", f"{w}/{f}")
    subprocess.run(["git", "-C", w, "add", "-A"], check=True)
    for f, old, new in s["EDITS"]:
        t = open(f"{w}/{f}").read()
        assert t.count(old) == 1, (s["NAME"], t.count(old), old)
        open(f"{w}/{f}", "w").write(t.replace(old, new))
    p = subprocess.run(["git", "-C", w, "diff"], capture_output=True, text=True, check=True).stdout
    open(f"{d}/patch.diff", "w").write(p)
    shutil.rmtree(w)
    open(f"{d}/demo.sh", "w").write('#!/bin/bash\nexec /opt/venv/bin/python -W ignore "$(dirname "$0")/demo.py"\n')
    os.chmod(f"{d}/demo.sh", 0o755)
    open(f"{d}/demo.py", "w").write(PRE + s["DEMO"].strip("\n") + "\n")
    json.dump({"property": s["PROPERTY"], "needs": s["NEEDS"], "what_it_breaks": s["BREAKS"]}, open(f"{d}/meta.json", "w"), indent=1)
    print("made", s["NAME"])


PRE = '''"""Demonstration: exits 0 when the property holds on this input, 1 when it does not."""
import os, sys
sys.path.insert(0, os.path.join(os.getcwd(), "src"))
import logging, shutil, tempfile
logging.disable(logging.CRITICAL)

TMP = tempfile.mkdtemp(prefix="demo-")
import atexit
atexit.register(shutil.rmtree, TMP, True)
os.environ["DATA_OPTIMIZER_CACHE_FOLDER"] = os.path.join(TMP, "cache")
os.environ["DATA_OPTIMIZER_DATA_CACHE_FOLDER"] = os.path.join(TMP, "data")


def write(path, sizes, first=0):
    """A dataset with one chunk per entry of sizes; the samples are first, first + 1, ..."""
    from litdata.streaming import Cache

    os.makedirs(path, exist_ok=True)
    from litdata.streaming.writer import BinaryWriter

    w = BinaryWriter(path, chunk_size=10 ** 6)
    i = 0
    for s in sizes:
        for _ in range(s):
            w.add_item(i, first + i)
            i += 1
        w.write_chunk(on_done=True)
        w._min_index = w._max_index = None
        w._per_sample_num_bytes = w._per_sample_num_items = 0
    w.done()
    w.merge(1)
    return path


def expect(got, want, what):
    if got != want:
        print(f"WRONG {what}: got {got}, want {want}")
        sys.exit(1)


'''

if __name__ == "__main__":
    for f in sys.argv[1:]:
        for s in runpy.run_path(f)["SPECS"]:
            make(s)
