"""Checks on iterators, attribute sets, sinks and the command line tool."""
import json
import os
import random
import resource
import shutil
import signal
import subprocess

import core
import docs as D
import gen


def texts(seed, n, most=200):
    ds = gen.documents(seed, n, sorted(D.FAMS), D.FAMS, D.seeds())
    return [d for d in ds if len(d) <= most]


def parse_docs(lines):
    return list(dict.fromkeys(lines))


# --- C04 -------------------------------------------------------------------------
def views(c):
    plain = c.build()
    det = c.build(["deterministic"])
    clauses = ["INVARIANTS ReadInOrder Emit", "PROPERTY Independent"]
    hists = []
    # (operations, handles, events of the document)
    plans = [(4, 3, 6), (3, 2, 2)] if c.quick else [(5, 3, 6), (4, 4, 3), (5, 2, 9)]

    def explore(p):
        d, h, e = p
        hists.extend(c.model("MCViews", clauses, {"DEPTH": d, "HANDLES": h, "EVENTS": e}, "HIST "))
    c.parallel(explore, plans)
    # longer histories at random
    def walk(k):
        hists.extend(c.model("MCViews", clauses[:1], {"DEPTH": 12, "HANDLES": 5, "EVENTS": 12}, "HIST ",
                             simulate=150 if c.quick else 3000, depth=14, seed=c.seed * 31 + k))
    c.parallel(walk, range(core.SHARDS))
    hs = sorted(set(hists))
    c.notes["histories_from_model"] = len(hs)
    r = random.Random(c.seed)
    ds = texts(c.seed * 77 + 4, 6000 if c.quick else 40000)
    cases = [(r.choice(ds), h) for h in hs]
    # every document at least drained in each way, alone and through a clone taken midway
    for d in ds:
        cases.append((d, r.choice(['[["n",1,%d],["c",1,0],["a",1,0],["o",2,0],["a",2,0]]' % r.randint(0, 20),
                                   '[["c",1,0],["n",2,%d],["o",1,0],["a",1,0],["a",2,0]]' % r.randint(1, 9),
                                   '[["p",1,0],["a",2,0],["a",1,0]]'])))
    parts = [cases[k::core.SHARDS] for k in range(core.SHARDS)]

    def shard(part):
        for i in range(0, len(part), 4000):
            if c.late():
                c.skipped += len(part) - i
                return
            some = part[i:i + 4000]
            ins = [json.dumps({"src": list(d.encode()), "ops": json.loads(h)}) for d, h in some]
            recs = c.observe(plain, "views", ins, as_json=True)
            other = c.observe(det, "events", [d.encode().hex() for d, _ in some])
            out, who = [], []
            for n, (a, b) in enumerate(zip(recs, other)):
                if a is None or b is None:
                    continue
                ev = json.loads(b)
                x = json.loads(a)
                x["det"] = ev["ev"]
                if ev["err"] and not x["err"]:
                    x["err"] = "deterministic: " + ev["err"]
                out.append(json.dumps(x))
                who.append(n)
            if some:
                c.sample({"document": some[0][0], "history": some[0][1]})
            c.judge("CheckViews", out, {}, lambda n: {"text": some[who[n]][0], "history": some[who[n]][1]})
    c.parallel(shard, parts)
    # the feature does not change the rendering either
    hexes = [d.encode().hex() for d in ds]
    parts = [hexes[k::core.SHARDS] for k in range(core.SHARDS)]
    count = [0]

    def same(part):
        outs = []
        for b in (plain, det):
            src, out = c.path("in"), c.path("obs")
            with open(src, "w") as f:
                f.write("\n".join(part) + "\n")
            rc, err = c.harness(b, ["html", src, out, "0::0,1::0"])
            if rc != 0:
                c.violation(f"the process ended with status {rc}: {err}", {"documents": len(part)})
                return
            outs.append(open(out).read().split("\n"))
        for n, d in enumerate(part):
            count[0] += 1
            if outs[0][2 * n:2 * n + 2] != outs[1][2 * n:2 * n + 2]:
                c.violation("deterministic feature changes the rendering", D.show(d))
    c.parallel(same, parts)
    c.notes["renderings_compared_across_features"] = count[0]


# --- C14, C15 --------------------------------------------------------------------
ATTR_TOKENS = ["{", "}", "{", "}", ".", "#", "%", "=", '"', '"', "\\", " ", "\n", "\t", "\r", "a", "k", "k=", "=v", '="', "-", "_", ":",
               "1", "!", "\u00e9", ".k", "#i", "k=v", 'k="v w"', 'k="v\\"w"', "%c%", "% c\n d %", "{.a}", "{#b}", "\\\n", "\\\\", '\\"',
               "\n\n", "\n ", "  ", "class=x", 'class="a b"', "id=i", "\x0c", "\x00", "\u00a0", ",", "/", "{}", "a=b", "}{", "\\a", "\\*"]


def attr_strings(seed, n):
    r = random.Random(seed)
    out = []
    while len(out) < n:
        s = "".join(r.choice(ATTR_TOKENS) for _ in range(r.randint(1, 12)))
        k = r.random()
        if k < .6:
            s = "{" + s + "}"
        elif k < .8:
            s = "{" + s
        if r.random() < .15:
            s += r.choice([" ", "\n", " x", "x", "{", "}", "\u00e9"])
        out.append(s)
    return out


def large_attrs(n):
    return ["{" + ".a" * n + "}", "{" + ".a " * n + "}", "{" + "".join("k%d=v " % i for i in range(n)) + "}", "{.a}" * n, "{.a}" * n + "{", "{" * n,
            "{." + "a" * n + "}", "{" + "k" * n + "=" + "v" * n + "}", '{k="' + "\\\"" * n + '"}', '{k="' + "a\n" * n + '"}', "{%" + "c" * n + "%}",
            "{" + "%c%" * n + "}", "{" + "k=v " * n + "}", "{" + "#i " * n + "}", "{" + " " * n + "}", "{" + "\n" * n + ".a" + "\n" * n + "}" + "\n" * n,
            "{.a" + "\n" * n + "}x", "{%" + "c\n" * n, "{" + ".é " * n + "}"]


def attrs(c):
    binary = c.build()
    inv = ["VIEW View", "INVARIANTS Emit AllLive Declared RoundTrip Queries"]
    total = [0]

    def judge(strs):
        for i in range(0, len(strs), 25000):
            if c.late():
                c.skipped += len(strs) - i
                return
            part = strs[i:i + 25000]
            recs = c.observe(binary, "attrs", part)
            pairs = [(d, r) for d, r in zip(part, recs) if r is not None]
            c.judge("CheckAttr", [r for _, r in pairs], {"PROP": c.prop}, lambda n: D.show(pairs[n][0]))

    def shard(k):
        env = {"SHARD": k, "SHARDS": core.SHARDS}
        strs = c.model("MCAttr", inv, dict(env, MODE="machine", DEPTH=3), "DOC ")
        depth = 6 if c.quick else 7
        strs += c.model("MCAttr", inv if not c.quick else inv[:1] + ["INVARIANTS Emit RoundTrip"],
                        dict(env, MODE="strings", DEPTH=depth), "DOC ", heap="4g")
        total[0] += len(strs)
        strs += [s.encode().hex() for s in attr_strings(c.seed * 911 + k, 15000 if c.quick else 200000)]
        strs += [s.encode().hex() for s in gen.slots(gen.ATTR_SLOTS)[k::core.SHARDS]]
        if k == 0:
            strs += [s.encode().hex() for s in large_attrs(270 if c.quick else 1000)]
        strs = list(dict.fromkeys(strs))
        c.sample({"string": bytes.fromhex(strs[len(strs) // 2]).decode()})
        c.sample({"string": bytes.fromhex(strs[-1]).decode()})
        judge(strs)
        if c.prop == "C15":
            hist = c.model("MCAttrSet", ["INVARIANTS Emit Queries"],
                           dict(env, DEPTH=3 if c.quick else 4), "HIST ", heap="4g")
            walks = c.model("MCAttrSet", ["INVARIANTS Emit Queries"], dict(env, DEPTH=12), "HIST ",
                            simulate=30 if c.quick else 600, depth=14, seed=c.seed * 13 + k)
            hist += walks
            for i in range(0, len(hist), 20000):
                if c.late():
                    return
                part = hist[i:i + 20000]
                recs = c.observe(binary, "attrsets", part, as_json=True)
                pairs = [(d, r) for d, r in zip(part, recs) if r is not None]
                c.judge("CheckAttrSet", [r for _, r in pairs], {}, lambda n: {"history": pairs[n][0]})
            c.sample({"history": hist[-1]})
    c.parallel(shard, range(core.SHARDS))
    c.notes["strings_enumerated_by_model"] = total[0]


# --- C21 -------------------------------------------------------------------------
def sinks(c):
    binary = c.build()
    r = random.Random(c.seed)
    ds = texts(c.seed * 55 + 21, 4000 if c.quick else 20000, 120)
    hist = {}

    def explore(io):
        hist[io] = sorted(set(c.model("MCSink", ["INVARIANTS Emit PrefixDelivered", "PROPERTY StopsAtError"],
                                      {"DEPTH": 4 if c.quick else 5, "IO": io}, "HIST ")))
    c.parallel(explore, ["0", "1"])
    c.notes["sink_histories_from_model"] = sum(len(h) for h in hist.values())
    cases = []
    lays = ["0::0", "1::0", "0:09:1"]
    for io, apis in (("1", ["write", "writes"]), ("0", ["push", "pushes"])):
        for h in hist[io]:
            for api in apis:
                for _ in range(1 if io == "1" else 3):
                    cases.append({"src": list(r.choice(ds).encode()), "lay": r.choice(lays), "api": api,
                                  "skip": r.randint(0, 14), "resp": json.loads(h)})
    # a failure at every single write of some documents, in every way of rendering
    for d in r.sample(ds, 60 if c.quick else 600):
        for api in ("write", "writes", "push", "pushes"):
            for skip in range(0, 40 if c.quick else 80):
                cases.append({"src": list(d.encode()), "lay": r.choice(lays), "api": api, "skip": skip, "resp": ["E"]})
    for d in ds:
        for api in ("str", "write", "writes", "push", "pushes"):
            cases.append({"src": list(d.encode()), "lay": lays[0] if api == "str" else r.choice(lays), "api": api, "skip": 0,
                          "resp": [] if api in ("str", "push", "pushes") else r.choice([[], ["S", "I", "H", "I", "S", "S", "I", "I"] * 4])})
    # the renderer itself fails
    for d in r.sample(ds, 300 if c.quick else 3000):
        for api in ("write", "writes", "push", "pushes"):
            cases.append({"src": list(d.encode()), "lay": r.choice(lays), "api": api, "skip": r.randint(0, 30), "own": r.randint(1, 12),
                          "resp": r.choice([[], [], ["E"]] + ([["S", "I", "H"] * 5] if api[0] == "w" else []))})
    r.shuffle(cases)

    def shard(k):
        part = cases[k::core.SHARDS]
        for i in range(0, len(part), 2500):
            if c.late():
                c.skipped += len(part) - i
                return
            some = part[i:i + 2500]
            recs = c.observe(binary, "sinks", [json.dumps(x) for x in some], as_json=True)
            pairs = [(d, x) for d, x in zip(some, recs) if x is not None]
            c.judge("CheckSink", [x for _, x in pairs], {}, lambda n: dict(pairs[n][0], text=bytes(pairs[n][0]["src"]).decode()))
    c.sample({"sink": {k: v for k, v in cases[0].items()}})
    c.parallel(shard, range(core.SHARDS))


# --- C24 -------------------------------------------------------------------------
def reuse(c):
    binary = c.build()
    r = random.Random(c.seed)
    inv = ["INVARIANTS Emit AsIfNew"]
    hists = []

    def explore(k):
        if k == 0:
            hists.extend(c.model("MCReuse", inv, {"DEPTH": 3}, "HIST "))
        else:
            hists.extend(c.model("MCReuse", inv, {"DEPTH": 12}, "HIST ", simulate=150 if c.quick else 4000, depth=14,
                                 seed=c.seed * 131 + k))
    c.parallel(explore, range(core.SHARDS))
    hs = sorted(set(hists))
    c.notes["histories_from_model"] = len(hs)
    ds = texts(c.seed * 91 + 24, 4000 if c.quick else 20000, 120)
    extra = ["[^a] [^b]\n\n[^a]: x[^c]\n\n[^b]: y\n", "[^b]\n\n[^b]:\n", "![[^a] `b`](c)\n", "- a\n- b\n\n[x]: y\n", "- a\n\n- b ![c\n",
             "```=html\n<i>\n```\n", "```=tex\na\n```\n", "[^a]: - b\n", "> - 1. ::: a\n", "# a\n\n> ## b\n", "|a|\n|-|\n^ b\n", ": a\n\n  b\n",
             "a `x`{=html} `y`{=t}\n", "[a]: b\n", "- [x] a\n", "\n\na\n", ""]
    cases = []
    for h in hs * (1 if c.quick else 3):
        docs = [r.choice(extra) + r.choice(["", "", "\n" + r.choice(ds)]) if r.random() < 0.5 else r.choice(ds) for _ in range(3)]
        ops = []
        for op, q, n in json.loads(h):
            ops.append([op, q, r.choice([1, 2, 3, 5, 9, 17]) if op == "n" else r.choice([1, 2, 3, 4, 6, 9, 14, 25]) if op == "f" else n])
        lays = r.sample(["0::0", "1::0", "0:09:1", "0:2020:0", "0:62:2"], 2)
        cases.append({"srcs": [list(d.encode()) for d in docs], "lays": ",".join(lays), "ops": ops})
    r.shuffle(cases)

    def shard(k):
        part = cases[k::core.SHARDS]
        for i in range(0, len(part), 800):
            if c.late():
                c.skipped += len(part) - i
                return
            some = part[i:i + 800]
            recs = c.observe(binary, "reuse", [json.dumps(x) for x in some], as_json=True)
            pairs = [(d, x) for d, x in zip(some, recs) if x is not None]
            c.judge("CheckReuse", [x for _, x in pairs], {},
                    lambda n: dict(pairs[n][0], texts=[bytes(b).decode() for b in pairs[n][0]["srcs"]]))
    c.sample({"history": cases[0]["ops"], "documents": [bytes(b).decode() for b in cases[0]["srcs"]]})
    c.parallel(shard, range(core.SHARDS))


# --- C25 -------------------------------------------------------------------------
def kinds(c):
    binary = c.build()
    streams = []

    def walk(k):
        for limit, nest, num in [(24, 6, 300)] if c.quick else [(14, 5, 3000), (40, 8, 3000)]:
            streams.extend(c.model("MCStream", ["INVARIANTS Emit Accepted Placed"], {"LIMIT": limit, "NESTING": nest}, "EVS ",
                                   simulate=num, depth=limit * 3, seed=c.seed * 613 + k * 19 + limit))
    c.parallel(walk, range(core.SHARDS))
    evs = sorted(set(streams))
    c.notes["event_streams_generated_by_model"] = len(evs)
    ds = texts(c.seed * 37 + 25, 20000 if c.quick else 150000)
    cases = ["{}"] + ['{"ev":%s}' % e for e in evs] + [json.dumps({"src": list(d.encode())}) for d in ds]

    def shard(k):
        part = cases[k::core.SHARDS]
        for i in range(0, len(part), 4000):
            if c.late():
                c.skipped += len(part) - i
                return
            some = part[i:i + 4000]
            recs = c.observe(binary, "kinds", some, as_json=True)
            pairs = [(d, x) for d, x in zip(some, recs) if x is not None]
            c.judge("CheckKinds", [x for _, x in pairs], {}, lambda n: {"case": pairs[n][0][:4000]})
    c.sample({"document": ds[0]})
    c.parallel(shard, range(core.SHARDS))


# --- C22 -------------------------------------------------------------------------
def limited(n):
    def f():
        signal.signal(signal.SIGXFSZ, signal.SIG_IGN)
        resource.setrlimit(resource.RLIMIT_FSIZE, (n, n))
    return f


def run_tool(c, tool, s, doc, limit, d, k):
    """Carry out one scenario inside the scratch directory d."""
    base = os.path.join(d, str(k))
    os.mkdir(base)
    args, stdin, pre = [tool], None, None
    data = doc
    frm, to = s["from"], s["to"]
    name = os.path.join(base, "in.dj").encode()
    if frm in ("badutf8", "badutf8stdin"):
        cut = len(doc) // 2
        data = doc[:cut] + b"\xff" + doc[cut:]
    if frm == "oddname":
        name = os.path.join(base, "in").encode() + b"\xff\xfe.dj"
    if frm == "missing":
        args.append(os.path.join(base, "absent").encode())
    elif frm == "directory":
        args.append(base.encode())
    elif frm in ("stdin", "badutf8stdin"):
        stdin = data
    else:
        with open(name, "wb") as f:
            f.write(data)
        args.append(name)
    mini, ind, lvl = s["opt"]
    flags = []
    if mini:
        flags.append("--minified")
    if ind != "":
        flags += ["--indent-string=" + ind] if k % 2 else ["--indent-string", ind] if ind != "-" else ["--indent-string=-"]
    if lvl:
        flags += ["--start-indent", str(lvl)]
    if s["bad"]:
        flags.append(s["bad"])
    target = os.path.join(base, "out.html")
    if to in ("file", "existing", "limit"):
        if to == "existing":
            with open(target, "wb") as f:
                f.write(b"x" * 100000)
    elif to == "nodir":
        target = os.path.join(base, "absent", "out.html")
    elif to == "directory":
        target = base
    elif to == "full":
        target = "/dev/full"
    elif to == "same":
        target = os.fsdecode(name)
    if to in ("limit", "stdoutlimit"):
        pre = limited(limit)
    tofile = to in ("file", "existing", "limit", "nodir", "directory", "full", "same")
    if tofile:
        flags += (["-o", target] if k % 3 else ["--output=" + target])
    args = [args[0]] + ([*args[1:], *flags] if k % 5 else [*flags, *args[1:]])
    so, close = subprocess.PIPE, []
    if to == "stdoutfull":
        so = os.open("/dev/full", os.O_WRONLY)
        close = [so]
    elif to == "stdoutlimit":
        so = os.open(os.path.join(base, "stdout"), os.O_WRONLY | os.O_CREAT)
        close = [so]
    elif to == "pipeclosed":
        rd, so = os.pipe()
        os.close(rd)
        close = [so]
    p = subprocess.Popen(args, stdin=subprocess.PIPE if stdin is not None else subprocess.DEVNULL, stdout=so,
                         stderr=subprocess.PIPE, preexec_fn=pre, cwd=base)
    for x in close:
        os.close(x)
    try:
        out, err = p.communicate(stdin, timeout=60)
    except subprocess.TimeoutExpired:
        p.kill()
        p.communicate()
        out, err = b"", b""
        c.violation("the tool does not end", {"scenario": s, "text": doc.decode()})
    if to == "stdoutlimit":
        with open(os.path.join(base, "stdout"), "rb") as f:
            out = f.read()
    elif tofile:
        got = b""
        if to != "full" and os.path.isfile(target):
            with open(target, "rb") as f:
                got = f.read()
        if out:
            err += b" "
            got = got + out if p.returncode == 0 else got
        out = got
    shutil.rmtree(base, ignore_errors=True)
    return {"status": p.returncode, "msg": len(err.strip()), "out": list(out or b"")}


def cli(c):
    binary, tool = c.build(), c.build_cli()
    scens = [json.loads(s) for s in
             dict.fromkeys(c.model("MCCli", ["INVARIANTS Emit Honest", "PROPERTY Ends"], {}, "HIST "))]
    c.notes["scenarios_from_model"] = len(scens)
    r = random.Random(c.seed)
    ds = [d.encode() for d in texts(c.seed * 3 + 22, 1500, 300)]
    big = [("# h\n\n" + d.decode() + "\n\n").encode() * r.randint(40, 120) for d in r.sample(ds, 12)] + [b"", b"\n", b"a", b"\xef\xbb\xbfa\n"]
    # the rendering of many documents crosses the size of any write buffer
    long = [b"a *b* & <c>\n\n" * 1500, b"- " + b"x" * 9000 + b"\n\n- y\n", b"a" * 8191, b"a" * 20000]
    work = []
    for rnd in range(1 if c.quick else 10):
        for s in scens:
            pool = ds if r.random() < .6 else big if r.random() < .6 else long
            work.append((s, r.choice(pool)))
    plain = {"from": "file", "to": "stdout", "opt": [False, "", 0], "bad": ""}
    for d in (ds[:300] if c.quick else ds) + big + long:
        s = dict(plain, **{"from": r.choice(["file", "stdin"]), "to": r.choice(["stdout", "file"]),
                           "opt": list(r.choice([[False, "", 0], [True, "", 0], [False, "\t", 0], [False, " ", 1]]))})
        work.append((s, d))
    for s in scens:
        if s["to"] in ("limit", "stdoutlimit", "stdoutfull", "pipeclosed") and s["from"] in ("file", "stdin"):
            for d in big[:3] + long:
                work.append((s, d))
    d = c.path("d")
    os.mkdir(d)

    def shard(k):
        for i0 in range(k * 300, len(work), core.SHARDS * 300):
            part = work[i0:i0 + 300]
            if c.late():
                c.skipped += len(part)
                continue
            lays = [f"{int(s['opt'][0])}:{s['opt'][1].encode().hex()}:{s['opt'][2]}" for s, _ in part]
            wants = [None] * len(part)
            for lay in set(lays):
                idx = [n for n, l in enumerate(lays) if l == lay]
                src, out = c.path("in"), c.path("obs")
                with open(src, "w") as f:
                    f.write("\n".join(part[n][1].hex() for n in idx) + "\n")
                rc, err = c.harness(binary, ["html", src, out, lay])
                if rc != 0:
                    raise core.Broken(f"html: {rc} {err}")
                for n, l in zip(idx, open(out).read().split("\n")):
                    st, _, h = l.partition(" ")
                    if st != "ok":
                        c.violation("the library fails", {"text": part[n][1].decode()})
                    wants[n] = bytes.fromhex(h)
            recs = []
            for n, (s, doc) in enumerate(part):
                w = wants[n]
                lim = r.choice([0, 1, max(0, len(w) - 1), len(w) // 2, len(w), len(w) + 1])
                o = run_tool(c, tool, s, doc, lim, d, i0 + n)
                recs.append(json.dumps(dict(o, scen=s, limit=lim, want=list(w))))
            c.judge("CheckCli", recs, {}, lambda n: {"scenario": part[n][0], "text": part[n][1].decode()[:2000],
                                                     "observed": {k: v for k, v in json.loads(recs[n]).items() if k in ("status", "msg", "limit")}})
    c.sample({"scenario": work[0][0], "document": work[0][1].decode()[:300]})
    c.parallel(shard, range(core.SHARDS))
