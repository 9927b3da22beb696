"""Checks on documents: events, renderings, totality."""
import json
import random
import time

import core
import gen

FAMS = gen.families()

# families explored one level deeper, and favoured at random
FOCUS = {
    "C01": ["nest", "list", "table"],
    "C02": ["lines", "fence", "battr", "blanks"],
    "C03": ["lines", "iattr", "verb", "escape"],
    "C05": ["lines", "fence", "blanks", "nest"],
    "C06": ["list", "nest", "roman"],
    "C07": ["head", "levels"],
    "C08": ["ids", "head"],
    "C09": ["refs"],
    "C10": ["table", "verb"],
    "C11": ["fence", "verb", "defs"],
    "C12": ["emph", "braces", "links", "auto"],
    "C13": ["smart", "escape", "verb"],
    "C16": ["iattr", "battr"],
    "C17": ["iattr", "links"],
    "C18": ["list", "table"],
    "C19": ["notes"],
    "C20": ["nest", "list"],
    "C23": ["ctx", "nest", "lines"],
}
# families explored to depth 3; the others to depth 2
RELATED = {
    "C01": "levels ctx lines fence head defs notes refs links emph battr iattr",
    "C02": "runs nest list table head notes verb smart escape",
    "C03": "ctx fence nest list table head defs smart links auto",
    "C05": "list table head runs ctx defs battr notes",
    "C06": "marker lines blanks head battr",
    "C07": "nest lines battr blanks refs notes",
    "C08": "levels refs smart escape verb lines battr",
    "C09": "ctx defs links iattr battr head notes emph",
    "C10": "ctx runs lines escape emph battr nest blanks",
    "C11": "ctx runs auto table links lines battr nest escape notes",
    "C12": "runs verb smart escape iattr notes refs",
    "C13": "runs ctx emph links auto braces iattr lines",
    "C16": "lines verb emph links table list head refs fence",
    "C17": "html links refs notes verb auto smart table",
    "C18": "levels lines list nest refs notes html verb iattr battr head",
    "C19": "refs links lines nest",
    "C23": "list fence defs links battr table blanks",
    "C20": "levels roman lines table fence head battr notes html",
}
# large documents (gen.large) judged at full size; the others are smaller
LARGE = {
    "C01": "quotes nestlist divs brackets emph cols",
    "C02": "long",
    "C03": "long items para classes",
    "C05": "fencewide qlines para head fence blank indent code divsq quotes indentlist",
    "C06": "items nums start roman ordchange indentlist",
    "C07": "heads head",
    "C08": "heads headtext",
    "C09": "label deflines imgs headtext",
    "C10": "cols rows caption",
    "C11": "verbwide fencewide code fence verbrun dest math rawi auto",
    "C12": "verbwide openers emph emph2 brackets links auto sym",
    "C13": "esc dashes dots quotes2 hard nbsp utf long",
    "C16": "classes pairs groups bgroups attrlines battrlines",
    "C17": "classes pairs utf",
    "C18": "nums start roman head imgs pairs",
    "C19": "fnrefs fnnest fnlines",
    "C20": "quotes nestlist qlines",
}
LAYOUTS = "0::0,1::0,0:09:1"
MORE_LAYOUTS = ["0::0,1::0,0:2020:2", "0::0,1:09:1,0:09:0", "0::0,1::0,0::3"]


def plan(prop, tier):
    """(family, depth) pairs to enumerate."""
    focus, related = FOCUS[prop], RELATED[prop].split()
    if prop == "C23":     # ten documents for each
        d = [3, 3, 2] if tier == "quick" else [4, 4, 3]
        return [[f, d[0] if f in focus else d[1] if f in related else d[2]] for f in FAMS]
    if tier == "quick":
        return [[f, 4 if f in focus else 3 if f in related else 2] for f in FAMS]
    size = lambda f, d: len(FAMS[f][0]) * len(FAMS[f][1]) ** d
    return [[f, 5 if f in focus and size(f, 5) < 700000 else 4 if size(f, 4) < 60000 or f in focus + related else 3]
            for f in FAMS]


def show(hexdoc):
    return {"doc": hexdoc, "text": bytes.fromhex(hexdoc).decode("utf-8", "replace")}


def render_prop(prop):
    return prop in ("C17", "C18", "C19", "C20")


def seeds():
    import os
    p = os.path.join(core.ROOT, "driver", "seeds.txt")
    return [json.loads(l) for l in open(p, encoding="utf-8")] if os.path.exists(p) else []


def judge_docs(c, binary, docs, layouts=LAYOUTS):
    """docs: hex.  Observe and judge them."""
    prop = c.prop
    step = 3000 if prop == "C23" else 12000
    for i in range(0, len(docs), step):
        part = docs[i:i + step]
        if c.late():
            c.skipped += len(docs) - i
            return
        if prop == "C02":
            recs = c.observe(binary, "one", part)
            module = "CheckTotal"
        elif render_prop(prop):
            recs = c.observe(binary, "render", part, [layouts])
            module = "CheckRender"
        elif prop == "C23":
            part, recs = contexts(c, binary, part)
            module = "CheckContext"
        else:
            recs = c.observe(binary, "events", part)
            module = "CheckEvents"
        pairs = [(d, r) for d, r in zip(part, recs) if r is not None]
        c.judge(module, [r for _, r in pairs], {"PROP": prop}, lambda n: show(pairs[n][0]))


# --- C23: the contexts of spec/Context.tla, which verifies them -----------------
def prefixed(d, first, rest, blank):
    return "".join((first if i == 0 else rest if l else blank) + l + "\n" for i, l in enumerate(d[:-1].split("\n")))


CONTEXTS = [
    lambda d: "X\n\n" + prefixed(d, "> ", "> ", ">"),
    lambda d: "X\n\n" + prefixed(d, "1. ", "   ", ""),
    lambda d: "X\n\n" + ":" * 30 + "\n" + d + ":" * 30 + "\n",
    lambda d: "X\n\n" + prefixed(d, "[^Q]: ", "      ", ""),
    lambda d: d + "\nY\n",
    lambda d: "X\n\n" + d,
    lambda d: prefixed(d, " ", " ", ""),
    lambda d: "X\n\n: T\n\n" + prefixed(d, "  ", "  ", ""),
    lambda d: prefixed(d, "\t ", "\t ", "\t"),
]


def contexts(c, binary, part):
    """Records of documents together with those of the same documents in contexts."""
    docs = [bytes.fromhex(h).decode("utf-8", "surrogateescape").rstrip("\n") + "\n" for h in part]
    docs = list(dict.fromkeys(d for d in docs if d.strip(" \t\r\x0c\n")))
    every = [t.encode("utf-8", "surrogateescape").hex() for d in docs for t in [d] + [w(d) for w in CONTEXTS]]
    recs = c.observe(binary, "events", every)
    n = len(CONTEXTS) + 1
    out = []
    for i in range(0, len(recs), n):
        g = recs[i:i + n]
        out.append(None if None in g else '{"doc":' + g[0] + ',"ctx":[' + ",".join(g[1:]) + "]}")
    return every[::n], out


def wrapped(docs, seed):
    """Every other document in some context: contexts within contexts."""
    r = random.Random(seed)
    out = []
    for i, d in enumerate(docs):
        for n in range(r.choice([0, 1, 1, 2]) if i % 2 and d.strip(" \t\r\x0c\n") else 0):
            d = r.choice(CONTEXTS)(d.rstrip("\n") + "\n").replace(":" * 30, ":" * (10 + n))
        out.append(d)
    return out


def run(c):
    prop = c.prop
    binary = c.build()
    plan_file = c.path("plan")
    pl = plan(prop, c.tier)
    with open(plan_file, "w") as f:
        json.dump(pl, f)
    sd = seeds()
    count = 9000 if c.quick else 60000
    if render_prop(prop):
        count = count * 2 // 3
    if prop == "C23":
        count //= 3
    enumerated = [0] * core.SHARDS
    randoms = [0] * core.SHARDS

    def randoms_for(seed, k, number):
        seed += k * 101 + int(prop[1:])
        docs = gen.documents(seed, number, FOCUS[prop], FAMS, sd)
        return [d.encode().hex() for d in (wrapped(docs, seed) if prop == "C23" else docs)]

    def large(k):
        if prop == "C23":
            return []
        full, some = gen.large(270 if c.quick else 700), gen.large(30 if c.quick else 120)
        return [(full if n in LARGE[prop].split() else some)[n].encode().hex() for n in sorted(full)[k::core.SHARDS]]

    def slots(k):
        # every character in every place; a tenth of them within the ten documents of C23
        s = gen.slots()[k::core.SHARDS]
        return [d.encode().hex() for d in (s[c.seed % 10::10] if prop == "C23" and c.quick else s)]

    def model(depths, k):
        out = c.model("MCDoc", ["VIEW View", "INVARIANTS Emit Law"],
                      {"PLAN": depths, "SHARD": k, "SHARDS": core.SHARDS, "PROP": prop,
                       "LAWS": 2 if c.quick else 4}, "DOC ")
        return list(dict.fromkeys(out))

    def shard(k):
        files = [plan_file]
        if not c.quick:                      # one family at a time
            files = []
            for fam in pl:
                p = c.path("plan")
                with open(p, "w") as f:
                    json.dump([fam], f)
                files.append(p)
        rnd = randoms_for(c.seed * 1000003, k, count)
        if k == 0:
            rnd = [d.encode().hex() for d in sd] + rnd
        rnd = list(dict.fromkeys(rnd + large(k) + slots(k)))
        for n, p in enumerate(files):
            if c.late():
                c.skipped += 1
                continue
            docs = model(p, k)
            enumerated[k] += len(docs)
            if n == 0:
                c.sample({"enumerated": show(docs[-1])["text"]})
                docs = docs + rnd
                randoms[k] += len(rnd)
                c.sample({"random": show(rnd[-1])["text"]})
            judge_docs(c, binary, docs)
        if not c.quick:
            n = 0
            while not c.late() and time.time() < c.start + 900:
                n += 1
                rnd = randoms_for((c.seed * 7919 + n) * 1000003, k, 12000)
                randoms[k] += len(rnd)
                judge_docs(c, binary, rnd, MORE_LAYOUTS[n % 3] if render_prop(prop) else LAYOUTS)
        if render_prop(prop):
            streams(c, binary, k)

    c.parallel(shard, range(core.SHARDS))
    c.notes["documents_enumerated_by_model"] = sum(enumerated)
    c.notes["documents_generated_at_random"] = sum(randoms)
    c.notes["documents_with_each_character_in_each_place"] = len(gen.slots()) // (10 if prop == "C23" and c.quick else 1)
    c.notes["plan"] = pl


def streams(c, binary, k):
    """Event streams built by a caller: random walks of MCStream."""
    runs = [(24, 6, 120)] if c.quick else [(14, 5, 2500), (30, 7, 2500), (60, 9, 1200)]
    total = 0
    for limit, nest, num in runs:
        if c.late():
            return
        evs = c.model("MCStream", ["INVARIANTS Emit Accepted Rendered Placed"], {"LIMIT": limit, "NESTING": nest}, "EVS ",
                      simulate=num, depth=limit * 3, seed=c.seed * 1009 + k * 17 + limit)
        evs = list(dict.fromkeys(evs))
        total += len(evs)
        for i in range(0, len(evs), 4000):
            part = evs[i:i + 4000]
            recs = c.observe(binary, "streams", part, [LAYOUTS], as_json=True)
            pairs = [(d, r) for d, r in zip(part, recs) if r is not None]
            c.judge("CheckRender", [r for _, r in pairs], {"PROP": c.prop}, lambda n: {"events": pairs[n][0]})
    with c.lock:
        c.notes["event_streams_generated_by_model"] = c.notes.get("event_streams_generated_by_model", 0) + total


# --- C02: also large and repetitive documents ----------------------------------
REPEAT = ["> ", "- ", "[", "]", "(", "![", "{", "{.a", "{.a}", "*", "_", "`", "``", "$`", "<", "<a:", "{=", '{"', "'", '"',
          "\\", "- [ ] ", "1. ", "a. ", "#", "# a\n", "[^a]", "[^a]: ", "[a]: ", "|", "|a", "|a|\n", "::: \n", "```\n", "~~~a\n",
          ":", ": a\n", "{%", '{a="', "\n", "\n\n", " ", "\t", "a", "a\n", "a\n\n", "**", "{*", "*}", "[a][", "][", "](", "[](",
          "[a](b)", ":a:", "...", "---", "--", "-", "***\n", "^", "{^", "^}", "~", "^ c\n", "i. a\n", "\u00e9", "{.a}\n", "> a\n",
          "- a\n\n", "- a\n  ", "(a) ", "[a]", "[]", "[][]", "<a@b>", "\\\n", "\\ ", "{#a}\n# b\n", "# a\n\n# a\n\n",
          "[^a]\n\n[^a]: b\n\n", "::: a\n:::\n", "|-|\n", "*a", "a*", "_a_ ", "[a]{", "a{", "a{.b", 'a{b="c\nd', "[^a]: [^b]\n\n",
          "[", "`a", "{.a #b c=d}", "x. ", "(iv) a\n", "A) a\n\n", ">\n", "- - ", "> - ", ": - ", "[a]: b\n", "[a]: b\n  c\n",
          "| a | b |\n", "|:-:|-|\n", "\\|", "{%c%}", "a{%c", "<b>", "&", "\u00a0", "\x00", "\r\n", "\x0c"]


def extremes(c, binary):
    # nested containers need stack in proportion: kept below the known limit (known-findings.txt)
    size = 4000 if c.quick else 12000
    docs = [p * (size // len(p.encode()) + 1) for p in REPEAT]
    for a in range(0, len(REPEAT), 3):
        b = (a * 7 + c.seed) % len(REPEAT)
        docs.append((REPEAT[a] + REPEAT[b]) * (size // len((REPEAT[a] + REPEAT[b]).encode()) + 1))
    for p in ["# " * 5, "#" * 65535 + " a", "#" * 65536 + " a\n\n# b", "#" * 70000 + " a", "9" * 400 + ". a", "i" * 400 + ". a",
              "z" * 30 + ". a", "MDCLXVI" * 9 + ") a", "`" * 300 + "a" + "`" * 300, "a" * 70000, "[^" + "a" * 70000 + "]",
              "{." + "a" * 70000 + "}", "|" + "a|" * 300 + "\n|" + "-|" * 300, "18446744073709551616. a", "4294967296) a",
              "65536. a", "99999999999999999999999. a\n100000000000000000000000. b", "# a\n" * 300 + "\n",
              "```" + "`" * 70000 + "\na", ":::" + ":" * 70000 + " a\n\n" + ":::" + ":" * 70000]:
        docs.append(p)
    hexes = [d.encode().hex() for d in docs]
    parts = [hexes[k::core.SHARDS] for k in range(core.SHARDS)]
    c.parallel(lambda p: judge_docs(c, binary, p), parts)
    c.notes["large_documents"] = len(docs)


def bulk(c, binary):
    """Many documents generated in the harness itself."""
    tokens = c.path("tokens")
    toks = list(dict.fromkeys(gen.SOUP + REPEAT + [t for f in FAMS.values() for t in f[1]]))
    with open(tokens, "w") as f:
        f.write("\n".join(t.encode().hex() for t in toks) + "\n")
    n = 25000 if c.quick else 150000
    done = [0]

    def shard(k):
        for r in range(1 if c.quick else 6):
            if c.late():
                return
            out = c.path("obs")
            seed = c.seed * 64 + k + 8 * r + 1
            rc, err = c.harness(binary, ["bulk", tokens, out, str(seed), str(n)])
            if rc != 0:
                c.violation(f"the process ended with status {rc}: {err}", {"bulk": [seed, n], "tokens": "as in driver/docs.py"})
                return
            with open(out, encoding="utf-8") as f:
                recs = f.read()[1:-1].rstrip().split("\n,")
            done[0] += len(recs)
            for i in range(0, len(recs), 25000):
                part = recs[i:i + 25000]
                c.judge("CheckTotal", part, {}, lambda j: show(json.loads(part[j])["src"]))
    c.parallel(shard, range(core.SHARDS))
    c.notes["documents_generated_in_harness"] = done[0]


def known_nesting(c, binary):
    """The listed finding: recursion depth grows with the nesting of block quotes."""
    import os
    path = os.path.join(core.ROOT, "known-findings.txt")
    listed = any(l.startswith("KNOWN-FINDING: property=C02 deep-nesting") for l in open(path))
    src, out = c.path("in"), c.path("obs")
    with open(src, "w") as f:
        f.write(("> " * 20000).encode().hex() + "\n")
    rc, err = c.harness(binary, ["one", src, out])
    if rc == 0:
        return
    if listed and "overflow" in err:
        print("KNOWN-FINDING: property=C02 deep-nesting: 20000 nested block quotes exhaust the stack of 8 MiB and abort the process")
    else:
        c.violation(f"the process ended with status {rc}: {err}", {"text": '"> " * 20000'})


def total(c):
    run(c)
    binary = c.build()
    extremes(c, binary)
    bulk(c, binary)
    known_nesting(c, binary)
