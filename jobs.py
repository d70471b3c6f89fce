"""What each property's check explores. 'N*' runs a job in N shards."""

import re

A_SEQ = ["the compiler's code generation; ASan's detection of accesses outside live blocks",
         "callbacks and stored objects are those of the harness: they do not modify the container they are called from",
         "valid calls only (documented preconditions, non-NULL containers, keys comparable by the given functions)",
         "a 128-bit hash of the canonical state identifies it (collisions would merge states)"]
A_SCHED = ["sequentially consistent execution of race-free code (races are reported, not interpreted)",
           "pthread and clock functions behave as POSIX describes: signal wakes one waiter, waits may end spuriously, a time-out may consume a signal",
           "time passes only while nothing can run (promptness) or at any point (safety)"]


def bfs(h, args):
    return "mc %s bfs %s" % (h, args)


def sweep(h, args, n=8):
    return "%d* mc %s sweep %s" % (n, h, args)


JOBS = {}
QUICK = {}
META = {}


def prop(pid, quick, thorough, level="model_checking", assumptions=A_SEQ, **kw):
    QUICK[pid] = quick
    JOBS[pid] = dict(quick=quick, thorough=quick + thorough)
    META[pid] = dict(level=level, assumptions=assumptions, **kw)


# --------------------------------------------------------------------------- hash table
HASHES = [(1, 0), (2, 0), (3, 1), (2, 2), (3, 3), (5, 4), (2, 5), (4, 6), (3, 7), (1, 7), (7, 8)]


def hash_jobs(check, fk=0, deep=False, alias=0):
    x = " fk=%d fv=%d alias=%d" % (fk, fk, alias)
    c = "kind=hash check=" + check + x
    out = []
    for s, h in HASHES:
        out.append(bfs("map", c + " dom=3 size=%d hash=%d" % (s, h)))
    out += [bfs("map", c + " dom=3 size=%d hash=%d" % (s, h)) for s, h in ((4, 0), (8, 6))]
    out += [sweep("map", c + " size=%d hash=%d from=20 to=70 step=10 pats=3" % (s, h), 2) for s, h in ((4, 0), (16, 6), (255, 7), (256, 0), (257, 6), (1000, 0), (65536, 7), (65537, 6))]
    out.append(bfs("map", c + " dom=2 size=2 hash=7 form=1 null=1"))
    out.append(bfs("map", c + " dom=2 size=2 hash=1 form=2 null=1"))
    out.append(bfs("map", c + " dom=2 size=1 hash=0 tail=3 lookup=1"))
    out.append(bfs("map", c + " dom=4 size=2 hash=0 abs=1 tail=2 lookup=1"))
    for h, f in ((0, 0), (7, 1), (2, 2)):
        out.append(bfs("map", c + " dom=2 size=0 hash=%d null=1 form=%d" % (h, f)))
    for p in (190, 255, 256, 257, 258, 770, 1030):
        for h in (0, 6, 4):
            out.append(bfs("map", c + " dom=3 prefill=%d abs=1 size=0 hash=%d tail=2 lookup=1" % (p, h)))
    out += [sweep("map", c + " size=0 hash=0 from=0 to=16 pats=9 refill=1"),
            sweep("map", c + " size=0 hash=6 from=180 to=300 step=5 pats=5 null=1"),
            sweep("map", c + " size=0 hash=5 from=254 to=262 pats=9 refill=1"),
            sweep("map", c + " size=0 hash=0 from=1025 to=1036 pats=4"),
            sweep("map", c + " size=0 hash=6 from=4120 to=4130 step=2 pats=4"),
            sweep("map", c + " size=0 hash=4 from=16510 to=16530 step=10 pats=2"),
            sweep("map", c + " size=0 hash=0 from=66080 to=70000 step=3920 pats=2"),
            sweep("map", c + " size=5 hash=7 from=20 to=60 step=4 pats=9 refill=1"), sweep("map", c + " family=cycles sizes=4 pats=1 size=0 hash=6")]
    if deep:
        out += [bfs("map", c + " dom=3 size=2 hash=7 form=1 null=1"), bfs("map", c + " dom=3 size=2 hash=1 form=2 null=1"),
                bfs("map", c + " dom=4 size=2 hash=0"), bfs("map", c + " dom=4 size=1 hash=7"), bfs("map", c + " dom=4 size=3 hash=6"),
                bfs("map", c + " dom=5 size=2 hash=0 abs=1 tail=3"), bfs("map", c + " dom=6 size=2 hash=0 abs=1 tail=2"),
                sweep("map", c + " size=0 hash=0 from=0 to=700 pats=9 refill=1 null=1"),
                sweep("map", c + " size=0 hash=6 from=700 to=4200 step=50 pats=4 refill=1"),
                sweep("map", c + " size=0 hash=0 from=16510 to=16530 step=1 pats=4 refill=1"),
                sweep("map", c + " size=0 hash=6 from=66080 to=66090 step=1 pats=4"),
                sweep("map", c + " size=0 hash=0 from=264000 to=265000 step=500 pats=2"),
                sweep("map", c + " size=1 hash=1 from=17 to=400 step=3 pats=5 refill=1")]
    return out


prop("C01", hash_jobs("func"), hash_jobs("func", deep=True))

c = "kind=hash check=func,bal size=0 family=cost "
prop("C02", [sweep("map", c + "from=0 to=40 pats=4"), sweep("map", c + "from=41 to=600 step=13 pats=4"), sweep("map", c + "from=250 to=265 pats=4"),
             sweep("map", c + "from=1020 to=1040 step=2 pats=2"), sweep("map", c + "from=4110 to=4135 step=5 pats=2"),
             sweep("map", c + "from=16505 to=16530 step=8 pats=2"), sweep("map", c + "from=66078 to=66090 step=6 pats=1"),
             sweep("map", c + "from=270000 to=270000 pats=1")] +
     # the flag that lets it grow and the bucket count: in storage with any previous contents
     [bfs("map", "kind=hash check=func,bal size=0 dom=3 prefill=600 abs=1 form=%d pattern=%d" % x) for x in ((0, 0), (0, 255), (1, 0))] +
     [sweep("map", c + "from=300 to=1300 step=1000 pats=2 form=%d" % f, 2) for f in (1, 2, 3)] +
     # tables with a fixed number of buckets use all of them
     [sweep("map", c.replace("size=0", "size=%d" % b) + "from=%d to=%d step=%d pats=2" % (n, n + 40, 20), 4) for b, n in ((1, 10), (2, 50), (7, 100), (16, 200), (255, 900), (256, 700), (257, 600), (1000, 900), (5000, 1500))] +
     [sweep("map", c.replace("size=0", "size=%d" % b) + "from=%d to=%d pats=1 variants=1" % (n, n), 1) for b, n in ((65535, 65500), (65536, 65500), (65537, 66000), (70000, 140000))],
     [sweep("map", c + "from=0 to=1100 pats=4"), sweep("map", c + "from=1100 to=20000 step=97 pats=4"), sweep("map", c + "from=66070 to=66100 step=3 pats=2"),
      sweep("map", c + "from=264000 to=265500 step=250 pats=2"), sweep("map", c + "from=1100000 to=1100000 pats=1")])


# --------------------------------------------------------------------------- red-black tree
def tree_jobs(check, fk=0, deep=False, alias=0, pool=0):
    x = " fk=%d fv=%d alias=%d pool=%d" % (fk, fk, alias, pool)
    c = "kind=rb check=" + check + x
    out = [bfs("map", c + " cap=4 dom=8"), bfs("map", c + " abs=1 cap=16"), bfs("map", c + " abs=1 cap=8 tail=2 lookup=1"),
           bfs("map", c + " abs=1 cap=5 tail=3 lookup=1"), bfs("map", c + " cap=3 form=1 null=1"), bfs("map", c + " cap=3 form=2 null=1 lookup=1"),
           sweep("map", c + " from=0 to=40 pats=9 refill=1"), sweep("map", c + " from=41 to=140 step=6 pats=9 null=1"),
           sweep("map", c + " from=500 to=2100 step=400 pats=4"), sweep("map", c + (" from=65530 to=65540 step=5 pats=2" if check != "bal" else " from=9000 to=9001 pats=2")), sweep("map", c + " family=cycles sizes=4 pats=1")]
    if deep:
        out += [bfs("map", c + " abs=1 cap=19"), bfs("map", c + " cap=5"), bfs("map", c + " abs=1 cap=11 tail=2"), bfs("map", c + " abs=1 cap=7 tail=3"),
                bfs("map", c + " abs=1 cap=4 tail=5"), sweep("map", c + " from=0 to=300 pats=9 refill=1"), sweep("map", c + " from=1000 to=9000 step=500 pats=9"),
                sweep("map", c + " from=100000 to=300000 step=100000 pats=4")]
    return out


prop("C03", tree_jobs("func") + [bfs("map", "kind=rb check=func abs=1 cap=18")], tree_jobs("func", deep=True))


# --------------------------------------------------------------------------- associative array
def assoc_jobs(check, fk=0, deep=False, alias=0):
    x = " fk=%d fv=%d alias=%d" % (fk, fk, alias)
    c = "kind=assoc check=" + check + x
    out = [bfs("map", c + " cap=5"), bfs("map", c + " abs=1 cap=40"), bfs("map", c + " abs=1 cap=9 tail=2 lookup=1"), bfs("map", c + " abs=1 cap=4 tail=3 lookup=1 null=1"),
           bfs("map", c + " cap=3 form=1 null=1"), bfs("map", c + " cap=3 form=2 null=1 lookup=1"), bfs("map", c + " cap=18 prefill=14 abs=1 tail=2 lookup=1 fan=2"),
           sweep("map", c + " from=0 to=40 pats=9 refill=1"), sweep("map", c + " from=41 to=140 step=6 pats=9 null=1"),
           sweep("map", c + " from=250 to=260 pats=9"), sweep("map", c + " from=500 to=2100 step=400 pats=4"), sweep("map", c + " from=65537 to=65537 pats=1", 1),
           sweep("map", c + " family=cycles sizes=4 pats=1")]
    if deep:
        out += [bfs("map", c + " abs=1 cap=120"), bfs("map", c + " cap=6"), bfs("map", c + " abs=1 cap=20 tail=2"), bfs("map", c + " abs=1 cap=7 tail=3"),
                sweep("map", c + " from=0 to=300 pats=9 refill=1"), sweep("map", c + " from=1000 to=9000 step=500 pats=9"),
                sweep("map", c + " from=100000 to=140000 step=20000 pats=2")]
    return out


prop("C04", tree_jobs("bal") + assoc_jobs("bal") + [bfs("map", "kind=rb check=bal abs=1 cap=18")], tree_jobs("bal", deep=True) + assoc_jobs("bal", deep=True))
prop("C05", assoc_jobs("func"), assoc_jobs("func", deep=True))

# --------------------------------------------------------------------------- iterators
q = []
for k, x in (("hash", " size=2 hash=7 dom=3 abs=1"), ("hash", " size=1 hash=0 dom=3 abs=1"), ("hash", " size=7 hash=0 dom=4 abs=1"), ("hash", " size=0 hash=7 dom=3 abs=1"),
             ("hash", " size=3 hash=2 dom=3 abs=1 null=1 form=1"), ("hash", " size=0 dom=3 prefill=256 abs=1"), ("hash", " size=0 dom=3 prefill=1030 hash=6 abs=1"),
             ("rb", " cap=9 abs=1"), ("rb", " cap=3 null=1 form=1"), ("rb", " cap=7 pool=2 abs=1"),
             ("assoc", " cap=20 abs=1"), ("assoc", " cap=3 null=1 form=1"), ("assoc", " cap=4")):
    q.append(bfs("map", "kind=%s check=iter%s" % (k, x)))
for k in ("hash", "rb", "assoc"):
    q += [sweep("map", "kind=%s check=iter family=iter from=0 to=40 pats=9" % k), sweep("map", "kind=%s check=iter family=iter from=41 to=300 step=11 pats=5" % k),
          sweep("map", "kind=%s check=iter family=iter from=1000 to=5000 step=1000 pats=3" % k), sweep("map", "kind=%s check=iter family=drain from=0 to=24 pats=9 refill=1" % k),
          sweep("map", "kind=%s check=iter family=drain from=60 to=270 step=30 pats=5 refill=1" % k),
          sweep("map", "kind=%s check=iter family=iter from=65535 to=66100 step=565 pats=%d" % (k, 1 if k == "assoc" else 2))]
prop("C06", q, [bfs("map", "kind=rb check=iter cap=13 abs=1"), bfs("map", "kind=assoc check=iter cap=60 abs=1"), bfs("map", "kind=hash check=iter dom=5 size=2 abs=1")] +
     [sweep("map", "kind=%s check=iter family=iter from=0 to=700 pats=9" % k) for k in ("hash", "rb", "assoc")] +
     [sweep("map", "kind=%s check=iter family=drain from=0 to=200 pats=9 refill=1" % k) for k in ("hash", "rb", "assoc")])


# --------------------------------------------------------------------------- lists
def list_jobs(kind, check, fd=0, deep=False, alias=0, pool=0, sorted_=0):
    c = "kind=%s check=%s fd=%d alias=%d pool=%d sorted=%d" % (kind, check, fd, alias, pool, sorted_)
    out = [bfs("list", c + " cap=8 dom=2"), bfs("list", c + " cap=5 dom=3 update=1"), bfs("list", c + " cap=6 dom=2 null=1 update=1"), bfs("list", c + " cap=4 dom=2 form=1 null=1"),
           bfs("list", c + " cap=4 dom=2 form=2 update=1"), bfs("list", c + " cap=4 dom=2 tail=3"), bfs("list", c + " cap=10 dom=1"),
           sweep("list", c + " from=0 to=24 pats=9"), sweep("list", c + " from=25 to=300 step=25 pats=4"),
           sweep("list", c + " from=1000 to=1000 pats=3")]
    # a sorted insertion may legally cost O(n) wherever it starts to look: no long ranges of big sorted lists
    if not sorted_: out.append(sweep("list", c + " family=light from=65530 to=65540 step=1"))
    if sorted_ == 1: out.append(sweep("list", c + " family=light from=8193 to=8193"))
    if deep:
        out += [bfs("list", c + " cap=12 dom=2"), bfs("list", c + " cap=7 dom=3 update=1"), bfs("list", c + " cap=5 dom=4 null=1 update=1"), bfs("list", c + " cap=5 dom=2 tail=4"),
                sweep("list", c + " from=0 to=120 pats=9"), sweep("list", c + " from=1000 to=3000 step=500 pats=4")]
        if not sorted_: out.append(sweep("list", c + " family=light from=1048570 to=1048580 step=5"))
    return out


prop("C07", list_jobs("list", "func"), list_jobs("list", "func", deep=True))
prop("C08", list_jobs("slist", "func"), list_jobs("slist", "func", deep=True))
prop("C09", list_jobs("list", "func", sorted_=1) + list_jobs("slist", "func", sorted_=1) + list_jobs("list", "func", sorted_=2) + list_jobs("slist", "func", sorted_=2),
     list_jobs("list", "func", sorted_=1, deep=True) + list_jobs("slist", "func", sorted_=1, deep=True))


# --------------------------------------------------------------------------- stack, queue
def sq_jobs(kind, check, fd=0, deep=False, pool=0):
    c = "kind=%s check=%s fd=%d pool=%d" % (kind, check, fd, pool)
    out = [bfs("sq", c + " cap=8 null=0"), bfs("sq", c + " cap=5 null=1"), bfs("sq", c + " cap=4 null=1 form=1"), bfs("sq", c + " cap=4 null=1 form=2"), bfs("sq", c + " cap=4 tail=4"),
           sweep("sq", c + " from=0 to=300"), sweep("sq", c + " from=65530 to=65540 step=5")]
    if deep:
        out += [bfs("sq", c + " cap=14 null=0"), bfs("sq", c + " cap=8 null=1"), bfs("sq", c + " cap=5 tail=6"), sweep("sq", c + " from=0 to=3000 step=7"), sweep("sq", c + " from=1000000 to=1000000")]
    return out


prop("C10", sq_jobs("stack", "func") + sq_jobs("queue", "func") + sq_jobs("async", "func"),
     sq_jobs("stack", "func", deep=True) + sq_jobs("queue", "func", deep=True) + sq_jobs("async", "func", deep=True))

# --------------------------------------------------------------------------- pool
q = [bfs("pool", "isize=%d bsize=%d cap=%d" % (i, b, n)) for i, b, n in ((8, 2, 5), (2, 3, 5), (24, 2, 4), (40, 4, 5), (3, 2, 4), (16, 2, 4), (4, 5, 5), (24, 3, 5))]
q += [sweep("pool", "isize=%d bsize=%d from=1 to=40 pats=9" % x) for x in ((8, 2), (2, 2), (24, 7), (16, 8), (13, 3), (40, 64))]
q += [sweep("pool", "isize=24 bsize=%d from=200 to=700 step=100 pats=4" % b) for b in (2, 32, 255, 256, 300)] + [sweep("pool", "isize=4 bsize=1000 from=66000 to=66000 pats=1")]
q += [sweep("pool", "isize=%d bsize=%d from=1 to=%d pats=5" % x) for x in ((300, 3, 9), (4096, 5, 7), (70000, 2, 5), (257, 258, 3))]
q += [sweep("pool", "isize=%d bsize=%d from=%d to=%d step=4 pats=1 frac=2" % x, 3) for x in ((4, 65535, 65534, 65542), (2, 65536, 65534, 65542), (3, 65538, 65534, 65542))]
prop("C11", q, [bfs("pool", "isize=%d bsize=%d cap=%d" % x) for x in ((8, 2, 6), (8, 3, 6), (2, 5, 6), (24, 4, 6))] +
     [sweep("pool", "isize=%d bsize=%d from=1 to=150 pats=9" % x) for x in ((8, 2), (2, 2), (24, 7), (16, 8), (13, 3), (40, 64))])

# --------------------------------------------------------------------------- node pools
q = []
for p in (1, 2, 4):
    q += [bfs("map", "kind=rb check=pool pool=%d cap=3 fk=1 fv=1" % p), bfs("map", "kind=rb check=pool pool=%d cap=9 abs=1" % p), bfs("map", "kind=rb check=pool pool=%d cap=3 form=1" % p),
          sweep("map", "kind=rb check=pool pool=%d from=0 to=40 pats=9 refill=1" % p)]
    for k in ("list+slist", "slist+list", "list+list"):
        q += [bfs("list", "kind=%s check=pool pool=%d cap=2 dom=2 fd=1 depth=9" % (k, p)), bfs("list", "kind=%s check=pool pool=%d cap=3 dom=1 fd=1 depth=9" % (k, p)),
              bfs("list", "kind=%s check=pool pool=%d cap=2 dom=1 fd=1 abs=1 tail=4" % (k, p))]
    for k in ("list", "slist"):
        q += [bfs("list", "kind=%s check=pool pool=%d cap=4 dom=2 fd=1" % (k, p))]
    for k in ("list", "slist"):
        q += [bfs("list", "kind=%s check=pool pool=%d cap=4 dom=2 sorted=1" % (k, p)), bfs("list", "kind=%s check=pool pool=%d cap=4 dom=2 form=1" % (k, p)),
              bfs("list", "kind=%s check=pool pool=%d cap=3 dom=2 tail=3 alias=1" % (k, p)),
              sweep("list", "kind=%s check=pool pool=%d from=0 to=30 pats=9" % (k, p))]
    for k in ("stack", "queue", "async"):
        q += [bfs("sq", "kind=%s check=pool pool=%d cap=4 fd=1" % (k, p)), bfs("sq", "kind=%s check=pool pool=%d cap=3 form=1" % (k, p)), sweep("sq", "kind=%s check=pool pool=%d from=0 to=150" % (k, p))]
    q += [bfs("sq", "kind=%s check=pool pool=%d cap=2" % (k, p)) for k in ("queue+stack", "stack+async", "queue+queue")]
prop("C12", q, [bfs("map", "kind=rb check=pool pool=%d cap=14 abs=1" % p) for p in (1, 3)] + [bfs("map", "kind=rb check=pool pool=1 cap=5")] +
     [bfs("list", "kind=%s check=pool pool=%d cap=8 dom=2" % (k, p)) for k in ("list", "slist") for p in (1, 3)] +
     [bfs("list", "kind=%s check=pool pool=%d cap=2 dom=2" % (k, p)) for k in ("list+slist", "slist+list") for p in (2, 4)] +
     [bfs("sq", "kind=queue+stack check=pool pool=%d cap=3" % p) for p in (1, 3)])

# --------------------------------------------------------------------------- release of stored objects
q = []
for k, x in (("hash", "size=2 hash=0 dom=3"), ("hash", "size=1 hash=7 dom=3"), ("rb", "cap=3 dom=4"), ("assoc", "cap=4")):
    for fk, fv in ((1, 1), (1, 0), (0, 1)):
        q.append(bfs("map", "kind=%s check=own fk=%d fv=%d alias=1 null=%d %s" % (k, fk, fv, 1 if fk != fv else 0, x)))
for k in ("hash", "rb", "assoc"):
    q += [bfs("map", "kind=%s check=own fk=1 fv=1 alias=1 form=%d dom=2 cap=2 tail=2 lookup=1 null=1" % (k, f)) for f in (0, 1, 2)]
    q += [sweep("map", "kind=%s check=own fk=1 fv=1 from=0 to=20 pats=9 refill=1 null=1" % k), sweep("map", "kind=%s check=own fk=1 fv=1 from=60 to=270 step=30 pats=4 refill=1" % k),
          sweep("map", "kind=%s check=own fk=1 fv=1 from=1030 to=1036 step=3 pats=2 refill=1" % k)]
q += [sweep("map", "kind=%s check=own fk=1 fv=1 family=cycles sizes=4 pats=1 size=0" % k) for k in ("hash", "rb", "assoc")]
q += [bfs("map", "kind=rb check=own fk=1 fv=1 cap=9 abs=1"), bfs("map", "kind=hash check=own fk=1 fv=1 dom=3 prefill=256 abs=1 tail=2")]
q += [sweep("map", "kind=%s check=own fk=%d fv=%d from=5 to=260 step=255 pats=2 refill=1" % (k, fk, 1 - fk), 2) for k in ("hash", "rb", "assoc") for fk in (0, 1)]
q += [sweep("map", "kind=%s check=own fk=1 fv=1 from=65537 to=65537 pats=1 refill=1%s" % (k, x), 1) for k, x in (("hash", " size=0"), ("rb", ""), ("assoc", ""), ("hash", " size=65540"))]
q += [sweep("list", "kind=%s check=own fd=1 family=light from=65537 to=65537" % k, 1) for k in ("list", "slist")] + [sweep("sq", "kind=%s check=own fd=1 from=65537 to=65537" % k, 1) for k in ("stack", "queue", "async")]
for k in ("list", "slist"):
    q += [bfs("list", "kind=%s check=own fd=1 alias=1 cap=5 dom=2 update=1 null=1" % k), bfs("list", "kind=%s check=own fd=1 alias=1 cap=4 dom=3 update=1" % k), bfs("list", "kind=%s check=own fd=1 alias=1 cap=7 dom=2" % k),
          bfs("list", "kind=%s check=own fd=1 alias=1 cap=4 sorted=1" % k), bfs("list", "kind=%s check=own fd=1 alias=1 cap=4 form=1 pool=3" % k), bfs("list", "kind=%s check=own fd=1 alias=1 cap=3 tail=3" % k),
          bfs("list", "kind=%s check=own fd=0 alias=1 cap=4" % k), bfs("list", "kind=%s check=own,mem fd=0 cap=4 update=1 null=1" % k), sweep("list", "kind=%s check=own fd=1 from=0 to=30 pats=9" % k)]
for k in ("stack", "queue", "async"):
    q += [bfs("sq", "kind=%s check=own fd=1 cap=6 null=1" % k), bfs("sq", "kind=%s check=own fd=1 cap=4 null=1 form=1 pool=2" % k), bfs("sq", "kind=%s check=own fd=0 cap=4" % k), sweep("sq", "kind=%s check=own fd=1 from=0 to=200" % k)]
prop("C13", q, hash_jobs("own", fk=1, alias=1, deep=True) + tree_jobs("own", fk=1, alias=1, deep=True) + assoc_jobs("own", fk=1, alias=1, deep=True) +
     list_jobs("list", "own", fd=1, alias=1, deep=True) + list_jobs("slist", "own", fd=1, alias=1, deep=True))

# --------------------------------------------------------------------------- memory
q = []
for f in (0, 1, 2):
    q += [bfs("map", "kind=hash check=mem fk=1 fv=1 dom=2 size=2 hash=0 form=%d null=1 alias=1" % f), bfs("map", "kind=hash check=mem dom=2 size=0 form=%d" % f),
          bfs("map", "kind=rb check=mem fk=1 fv=1 cap=3 form=%d null=1 alias=1" % f), bfs("map", "kind=assoc check=mem fk=1 fv=1 cap=3 form=%d null=1 alias=1" % f)]
    q += [bfs("list", "kind=%s check=mem fd=1 cap=4 dom=2 alias=1 update=1 null=1 sorted=%d form=%d" % (k, s, f)) for k in ("list", "slist") for s in (0, 1)]
    q += [bfs("sq", "kind=%s check=mem fd=1 cap=4 null=1 form=%d" % (k, f)) for k in ("stack", "queue", "async")]
    q += [bfs("buf", "check=mem max=5 fillmax=2 form=%d" % f), bfs("buf", "check=mem max=3 ops=fill,line,fd,clear form=%d" % f)]
q += [bfs("buf", "check=mem nolimit=1 prefill=%d cap=%d fillmax=2 bigfill=1 alpha=2 depth=5" % (p, p + 3)) for p in (62, 63, 64, 65, 126, 128, 254)]
for k in ("list", "slist"):
    q += [bfs("list", "kind=%s check=func,mem fd=1 cap=3 dom=2 form=3 sorted=%d" % (k, s)) for s in (0, 1)]
q += [bfs("map", "kind=hash check=func,iter,mem fk=1 dom=2 size=%d form=3" % s) for s in (0, 2)] + [bfs("map", "kind=%s check=func,iter,mem fk=1 cap=3 form=3" % k) for k in ("rb", "assoc")]
q += [bfs("sq", "kind=%s check=func,mem fd=1 cap=3 form=3" % k) for k in ("stack", "queue", "async")] + [bfs("buf", "check=rd,inv,mem max=4 fillmax=2 form=3"), bfs("buf", "check=rd,inv,mem nolimit=1 cap=4 form=3")]
for pat in (0, 255):
    q += [bfs("sq", "kind=%s check=func,mem cap=3 pattern=%d form=0" % (k, pat)) for k in ("stack", "queue", "async")]
    q += [bfs("map", "kind=%s check=func,iter,mem cap=3 dom=2 pattern=%d form=0 %s" % (k, pat, x)) for k, x in (("hash", "size=2"), ("hash", "size=0"), ("rb", ""), ("assoc", ""))]
    q += [bfs("list", "kind=%s check=func,mem cap=3 dom=2 pattern=%d form=0 sorted=1" % (k, pat)) for k in ("list", "slist")]
    q += ["2* sc aq all threads=2 len=2 check=lin,block,time,mem fill=%d form=%d" % (pat, f) for f in (0, 1)]
    q += [bfs("map", "kind=%s check=func,iter,mem cap=3 dom=2 pattern=%d form=1 %s" % (k, pat, "size=2" if k == "hash" else "")) for k in ("hash", "rb", "assoc")]
    q += [bfs("list", "kind=%s check=func,mem cap=3 dom=2 pattern=%d form=1" % (k, pat)) for k in ("list", "slist")]
    q += [bfs("buf", "check=rd,inv,mem max=5 fillmax=2 pattern=%d form=1" % pat), bfs("pool", "isize=8 bsize=2 cap=4 pattern=%d" % pat)]
q += [bfs("map", "kind=rb check=mem cap=9 abs=1"), bfs("map", "kind=assoc check=mem cap=36 abs=1"), bfs("map", "kind=hash check=mem dom=3 prefill=256 abs=1 tail=2")]
q += [bfs("map", "kind=%s check=mem,iter cap=5 dom=3 abs=1" % k) for k in ("hash", "rb", "assoc")]
for k in ("hash", "rb", "assoc"):
    q += [sweep("map", "kind=%s check=mem from=0 to=40 pats=9 refill=1" % k), sweep("map", "kind=%s check=mem from=60 to=300 step=20 pats=4 refill=1" % k), sweep("map", "kind=%s check=mem,iter family=iter from=0 to=130 pats=3" % k),
          sweep("map", "kind=%s check=mem from=1020 to=4140 step=520 pats=2" % k)]
q += [sweep("map", "kind=%s check=mem fk=1 fv=1 family=cycles sizes=4 pats=2 size=0" % k) for k in ("hash", "rb", "assoc")]
q += [sweep("list", "kind=%s check=mem from=0 to=30 pats=9" % k) for k in ("list", "slist")]
q += [sweep("sq", "kind=%s check=mem from=0 to=200" % k) for k in ("stack", "queue", "async")]
q += [sweep("pool", "isize=%d bsize=%d from=1 to=40 pats=9" % x) for x in ((8, 2), (2, 2), (24, 7))]
q += ["4* sc aq all threads=2 len=2 prefill=%d form=%d check=mem" % (n, f) for n, f in ((0, 0), (1, 1))] + ["2* sc aq all threads=3 len=1 check=mem"]
q += [sweep("buf", "check=mem family=two from=0 to=140 step=4"), sweep("buf", "check=mem family=stream from=1 to=70 total=2000"), sweep("buf", "check=mem family=fd")]
q += [bfs("pool", "isize=8 bsize=2 cap=5"), bfs("pool", "isize=24 bsize=3 cap=4")]
prop("C14", q, hash_jobs("mem", fk=1, alias=1, deep=True) + tree_jobs("mem", fk=1, alias=1, deep=True) + assoc_jobs("mem", fk=1, alias=1, deep=True) +
     list_jobs("list", "mem", fd=1, alias=1, deep=True) + list_jobs("slist", "mem", fd=1, alias=1, deep=True) + [sweep("buf", "check=mem family=two from=0 to=300 step=1")])

# --------------------------------------------------------------------------- buffer
q = [bfs("buf", "check=rd max=6 fillmax=2 alpha=3"), bfs("buf", "check=rd max=5 fillmax=3 alpha=3"), bfs("buf", "check=rd max=8 fillmax=2 alpha=2"), bfs("buf", "check=rd nolimit=1 cap=6 fillmax=2 alpha=3"),
     bfs("buf", "check=rd max=4 fillmax=2 alpha=3 tail=3"), bfs("buf", "check=rd max=4 form=1 ops=fill,line,flush,str,clear,fd")]
q += [bfs("buf", "check=rd nolimit=1 prefill=%d cap=%d fillmax=2 bigfill=1 alpha=2 depth=6" % (p, p + 4)) for p in (61, 62, 63, 64, 65, 126, 127, 128, 255, 256)]
q += [sweep("buf", "check=rd family=two from=0 to=140"), sweep("buf", "check=rd family=stream from=1 to=140 total=5000"), sweep("buf", "check=rd family=stream from=250 to=2050 step=300 total=70000")]
q += [sweep("buf", "check=rd family=stream from=5000 to=75000 step=70000 total=210000 nl=6")]
q += [sweep("buf", "check=rd family=bytes len=2"), sweep("buf", "check=rd family=bytes len=3"), sweep("buf", "check=rd family=bytes len=4 chars=12")]
prop("C15", q, [bfs("buf", "check=rd max=9 fillmax=2 alpha=3"), bfs("buf", "check=rd max=6 fillmax=4 alpha=3"), bfs("buf", "check=rd max=5 fillmax=2 alpha=3 tail=4"), sweep("buf", "check=rd family=two from=0 to=400"),
                sweep("buf", "check=rd family=stream from=1 to=600 total=20000"), sweep("buf", "check=rd family=stream from=60000 to=70000 step=1111 total=500000"),
                sweep("buf", "check=rd family=bytes len=4"), sweep("buf", "check=rd family=bytes len=5 chars=10")])
q = [bfs("buf", "check=inv max=%d fillmax=%d alpha=2" % x) for x in ((1, 2), (2, 3), (3, 4), (4, 5), (5, 3), (7, 3))]
q += [bfs("buf", "check=inv max=%d fillmax=3 alpha=2 ops=fill,line,flush,str,clear,fd" % m) for m in (1, 2, 3, 4)] + [bfs("buf", "check=inv max=3 fillmax=4 alpha=2 tail=2"), bfs("buf", "check=inv max=2 fillmax=3 alpha=1 tail=3"), bfs("buf", "check=inv max=3 form=1"), bfs("buf", "check=inv max=3 form=2"),
      bfs("buf", "check=inv max=3 huge=1"), bfs("buf", "check=inv max=65 prefill=63 bigfill=1 huge=1 depth=3"), bfs("buf", "check=inv nolimit=1 cap=4 huge=1 depth=4")]
q += [bfs("buf", "check=inv max=%d prefill=%d fillmax=2 alpha=2 bigfill=1 depth=5" % (m, p)) for m in (63, 64, 65, 127, 128, 129, 256) for p in (m - 2, m)]
q += [bfs("buf", "check=inv max=%d cap=%d prefill=%d rhythm=30000 fillmax=2 alpha=2 depth=3 ops=fill,line,clear,fd" % (m, m, p)) for m in (65535, 65536, 65537, 70000, 131072) for p in (m - 1, m)]
q += [sweep("buf", "check=inv family=two from=0 to=140"), sweep("buf", "check=inv family=fd")]
prop("C16", q, [bfs("buf", "check=inv max=%d fillmax=%d alpha=3" % x) for x in ((6, 4), (8, 2))] + [bfs("buf", "check=inv max=3 fillmax=4 alpha=2 tail=3"), sweep("buf", "check=inv family=two from=0 to=400")])
q = [bfs("buf", "check=fd max=%d fillmax=2 alpha=2 ops=fill,line,clear,fd" % m) for m in (1, 2, 3, 4, 5, 6)] + [bfs("buf", "check=fd max=4 fillmax=2 alpha=3 ops=fill,line,flush,str,clear,fd form=1"), bfs("buf", "check=fd max=3 tail=2 ops=fill,line,clear,fd"), bfs("buf", "check=fd max=2 tail=3 ops=fill,line,clear,fd")]
q += [bfs("buf", "check=fd nolimit=1 prefill=%d cap=%d fillmax=2 bigfill=1 alpha=2 depth=4 ops=fill,line,clear,fd" % (p, p + 3)) for p in (62, 63, 64, 127, 128)]
q += [sweep("buf", "check=fd family=fd", 16), sweep("buf", "check=fd family=bytes len=2 ops=fd"), sweep("buf", "check=fd family=bytes len=3 ops=fd")]
q += [bfs("buf", "check=fd max=2 fillmax=2 alpha=2 ops=fill,line,clear,fd fdno=%d err=%d" % x) for x in ((0, 5), (1, 11), (2, 9), (1023, 104), (1024, 21), (70000, 22), (2147483647, 110))]
prop("C17", q, [bfs("buf", "check=fd max=7 fillmax=3 alpha=3 ops=fill,line,clear,fd"), bfs("buf", "check=fd max=3 tail=3 ops=fill,line,clear,fd")])

# --------------------------------------------------------------------------- asynchronous queue


def aq(args, n=8):
    return "%d* sc aq %s" % (n, args)


def aq_jobs(check, deep=False):
    c = " check=" + check
    out = [aq("all threads=2 len=2" + c, 1), aq("all threads=2 len=3" + c), aq("all threads=2 len=2 spur=1 eager=1" + c), aq("all threads=3 len=1 spur=1 eager=1" + c),
           aq("all threads=3 len=2 total=4" + c), aq("all threads=3 len=2 total=5 alpha=uo" + c), aq("all threads=4 len=1 alpha=uocn" + c), aq("all threads=2 len=2 prefill=1 pool=2" + c, 2),
           aq("all threads=2 len=2 prefill=3 pool=3 form=1 null=1 alpha=uot" + c, 2), aq("all threads=2 len=1 access=1 pb=2" + c), aq("all threads=2 len=2 alpha=uoc access=1 pb=1 prefill=1" + c),
           aq("all threads=3 len=1 access=1 pb=1" + c), aq("all threads=3 len=2 total=4 alpha=uot spur=1 pb=1" + c)]
    out += [aq("all threads=2 len=2 ms=0%s" % x + c, 2) for x in ("", " prefill=1", " prefill=1 pool=2 form=1")] + [aq("all threads=2 len=3 total=5 ms=0 prefill=1 alpha=uotn" + c), aq("all threads=3 len=1 ms=0 prefill=1 spur=1" + c), aq("all threads=3 len=1 ms=0 spur=1 eager=1" + c)]
    out += [aq("all threads=2 len=2 form=%d fill=%d" % x + c, 2) for x in ((0, 255), (1, 255), (0, 0), (1, 0))]
    if deep:
        out += [aq("all threads=4 len=1" + c), aq("all threads=2 len=4 total=7 alpha=uotc" + c), aq("all threads=3 len=2 total=6 alpha=uot" + c), aq("all threads=4 len=2 total=5 alpha=uo" + c), aq("all threads=3 len=2 spur=2 pb=2 total=5 alpha=uot eager=1" + c),
                aq("all threads=4 len=1 spur=1 eager=1 pb=2" + c), aq("all threads=2 len=2 access=1 pb=2" + c), aq("all threads=3 len=2 total=5" + c), aq("all threads=2 len=3 spur=2 eager=1 alpha=uot pb=3" + c)]
    return out


prop("C18", aq_jobs("lin,race"), aq_jobs("lin,race", True), assumptions=A_SCHED)
prop("C19", aq_jobs("block") + [aq("all threads=4 len=1 check=block"), aq("all threads=3 len=2 total=5 alpha=uot check=block"), aq("all threads=4 len=2 total=5 alpha=uo pb=2 check=block")], aq_jobs("block", True), assumptions=A_SCHED)
c = " check=lin,block,race"
prop("C29", [aq("all threads=1 len=3 efail=4" + c, 1), aq("all threads=1 len=3 efail=1 form=1 prefill=2 pool=2 null=1 alpha=uotn" + c, 1), aq("all threads=2 len=2 efail=4" + c), aq("all threads=2 len=2 total=3 efail=4 spur=1 eager=1" + c), aq("all threads=2 len=3 total=5 efail=1" + c),
             aq("all threads=3 len=1 efail=4" + c), aq("all threads=3 len=1 spur=1 efail=1" + c), aq("all threads=3 len=2 total=4 efail=1" + c), aq("all threads=2 len=2 prefill=1 efail=1 form=1 fill=255" + c),
             aq("all threads=2 len=1 access=1 pb=2 efail=4" + c), aq("all threads=2 len=2 total=3 access=1 pb=1 efail=1 prefill=1" + c)],
     [aq("all threads=2 len=3 efail=1" + c), aq("all threads=3 len=2 total=4 efail=4 alpha=uotc" + c), aq("all threads=3 len=2 total=5 efail=1 alpha=uo" + c), aq("all threads=4 len=1 efail=1 alpha=uotc" + c), aq("all threads=2 len=2 access=1 pb=2 efail=1 alpha=uoc" + c),
      aq("all threads=2 len=2 spur=2 eager=1 efail=1 alpha=uot" + c)],
     level="fault_enumeration", assumptions=A_SCHED + ["a primitive that reports an error has had no effect"])
prop("C20", [aq("time deep=1 check=time"), aq("time deep=1 spur=1 check=time"), aq("all threads=2 len=3 alpha=uot ms=1500 usec=999999 check=time"), aq("all threads=3 len=1 spur=2 ms=999 usec=999000 check=time"),
             aq("all threads=3 len=2 total=5 alpha=uots ms=700 usec=500000 pb=2 check=time"), aq("all threads=2 len=3 eager=1 alpha=uot pb=2 check=time"), aq("all threads=2 len=2 eager=1 spur=1 alpha=uot check=time")],
     [aq("time deep=1 spur=2 check=time"), aq("time deep=2 spur=1 check=time"), aq("all threads=2 len=3 eager=1 spur=1 alpha=uot pb=2 check=time"), aq("all threads=3 len=2 total=6 alpha=uots ms=700 usec=500000 check=time"), aq("all threads=4 len=2 total=5 alpha=uots ms=700 spur=1 check=time")], assumptions=A_SCHED)

# --------------------------------------------------------------------------- out of memory
q = []
for f in (0, 1):
    q += [bfs("map", "kind=%s check=func oom=1 cap=%d dom=%d form=%d %s" % (k, c_, d, f, x)) for k, c_, d, x in (("hash", 3, 3, "size=2"), ("hash", 2, 2, "size=0"), ("rb", 3, 3, ""), ("assoc", 4, 4, ""))]
    q += [bfs("list", "kind=%s check=func oom=1 cap=4 dom=2 sorted=%d form=%d" % (k, s, f)) for k in ("list", "slist") for s in (0, 1)]
    q += [bfs("sq", "kind=%s check=func oom=1 cap=4 form=%d" % (k, f)) for k in ("stack", "queue", "async")]
    q += [bfs("buf", "check=rd oom=1 max=5 fillmax=2 form=%d ops=fill,line,flush,str,clear,fd" % f)]
q += [bfs("pool", "oom=1 isize=8 bsize=%d cap=%d" % x) for x in ((2, 4), (2, 5), (3, 5))]
q += [bfs("list", "kind=%s check=func oom=1 cap=4 dom=2 pool=%d" % (k, p)) for k in ("list", "slist") for p in (2, 3)]
q += [bfs("sq", "kind=%s check=func oom=1 cap=4 pool=2" % k) for k in ("stack", "queue", "async")]
q += [bfs("map", "kind=rb check=func oom=1 cap=3 dom=3 pool=2"), bfs("map", "kind=rb check=func,iter oom=1 cap=9 abs=1"), bfs("map", "kind=assoc check=func oom=1 cap=36 abs=1"), bfs("map", "kind=hash check=func oom=1 dom=3 prefill=190 abs=1"),
      bfs("map", "kind=hash check=func oom=1 dom=3 prefill=256 abs=1 size=0"), bfs("map", "kind=hash check=func oom=1 dom=3 prefill=1030 abs=1 size=0")]
q += [bfs("buf", "check=rd oom=1 nolimit=1 prefill=%d cap=%d fillmax=2 bigfill=1 alpha=2 depth=4 ops=fill,line,flush,str,clear,fd" % (p, p + 3)) for p in (62, 63, 64, 126, 128, 255)]
q += [bfs("map", "kind=%s check=func oom=1 iterop=1 %s" % x) for x in (("rb", "cap=3"), ("rb", "cap=9 abs=1"), ("rb", "cap=3 pool=2"), ("hash", "size=2 dom=3"), ("hash", "size=0 dom=2 prefill=256 abs=1"), ("assoc", "cap=4"))]
q += [bfs("map", "kind=rb check=func oom=1 dom=3 prefill=%d cap=%d abs=1 fan=2 depth=5" % (p, p + 3)) for p in (14, 30, 62)]
prop("C21", q, [bfs("map", "kind=rb check=func oom=1 cap=14 abs=1"), bfs("map", "kind=rb check=func oom=1 cap=4"), bfs("map", "kind=hash check=func oom=1 dom=4 size=2 abs=1"), bfs("buf", "check=rd oom=1 max=7 fillmax=3 ops=fill,line,flush,str,clear,fd"),
                bfs("pool", "oom=1 isize=8 bsize=2 cap=6"), bfs("list", "kind=list check=func oom=1 cap=8 dom=2"), bfs("list", "kind=slist check=func oom=1 cap=8 dom=2")], level="fault_enumeration")

# --------------------------------------------------------------------------- isolation
def nest_jobs(depth, deep=False):
    q = []
    for k, x in (("hash", "size=2 hash=7 dom=2 fk=1 fv=1"), ("hash", "size=1 hash=0 dom=2"), ("rb", "cap=2 fk=1 fv=1")):
        q += [bfs("map", "kind=%s check=func,own nest=1 callbacks=4 %s depth=%d" % (k, x, depth)), bfs("map", "kind=%s check=func,own nest=1 callbacks=8 %s abs=1 tail=1" % (k, x))]
    q += [bfs("map", "kind=assoc check=func,own nest=1 callbacks=4 cap=2 fk=1 fv=1"), bfs("map", "kind=rb check=func,own nest=1 callbacks=8 fk=1 cap=%d abs=1" % (8 if deep else 6)),
          bfs("map", "kind=assoc check=func,own nest=1 callbacks=8 fk=1 cap=%d abs=1" % (20 if deep else 12)), bfs("map", "kind=hash check=func,own nest=1 callbacks=4 dom=2 prefill=256 size=0 abs=1")]
    q += [bfs("list", "kind=%s check=func,own nest=1 fd=1 cap=%d dom=2 sorted=%d update=%d" % (k, 4 if deep else 3, s_, 1 - s_)) for k in ("list", "slist", "list+slist") for s_ in (0, 1)]
    q += [bfs("sq", "kind=%s check=func,own nest=1 fd=1 cap=%d" % (k, 4 if deep else 3)) for k in ("stack+queue", "queue+queue", "stack+stack", "async+async")]
    q += [bfs("buf", "check=rd,inv,fd inst=2 max=%d fillmax=2 alpha=2 ops=fill,line,flush,str,clear,fd nest=1" % (3 if deep else 2)), bfs("buf", "check=rd,inv inst=2 max=3 fillmax=2 alpha=3")]
    return q


prop("C22", nest_jobs(4) + ["8* sc iso all check=race from=1 to=12", "8* sc iso all check=race from=40 to=160 step=120", "8* sc iso all check=race access=1 pb=1 from=3 to=3"],
     nest_jobs(6, True) + ["8* sc iso all check=race access=1 pb=1 from=1 to=12", "8* sc iso all check=race access=1 pb=2 from=1 to=1", "8* sc iso all check=race from=30 to=300 step=45"], assumptions=A_SEQ + A_SCHED[:2])

# --------------------------------------------------------------------------- hash and compare helpers
q = [sweep("cmp", "family=pairs alpha=5 len=4"), sweep("cmp", "family=pairs alpha=2 len=9"), sweep("cmp", "family=long from=1 to=300"), sweep("cmp", "family=long from=1023 to=1026"), sweep("cmp", "family=long from=4095 to=4097"), sweep("cmp", "family=long from=65535 to=65636 step=1"), sweep("cmp", "family=bytes"), sweep("cmp", "family=pointers"), sweep("cmp", "family=ints"), sweep("cmp", "family=hash len=5")]
prop("C23", q, [sweep("cmp", "family=pairs alpha=6 len=5"), sweep("cmp", "family=hash len=7"), sweep("cmp", "family=long from=300 to=3000 step=9")], level="exploration",
     rule="all pairs of strings up to a length over a byte alphabet with sign-bit bytes; a pair is non-trivial when both strings start alike", assumptions=A_SEQ[:2] + ["strings are zero-terminated"])

# --------------------------------------------------------------------------- cleared == new
q = []
for k, x in (("hash", "size=2 hash=0 dom=3"), ("hash", "size=1 hash=7 dom=3"), ("hash", "size=0 dom=2 null=1"), ("rb", "cap=3 dom=4"), ("rb", "cap=9 abs=1"), ("assoc", "cap=4"), ("assoc", "cap=20 abs=1"),
             ("hash", "dom=3 prefill=256 size=0 abs=1 tail=3"), ("rb", "cap=4 abs=1 tail=3"), ("assoc", "cap=4 abs=1 tail=4")):
    q.append(bfs("map", "kind=%s check=func,iter clear=1 %s" % (k, x)))
for k in ("hash", "rb", "assoc"):
    q += [sweep("map", "kind=%s check=func,iter refill=1 from=0 to=48 pats=9" % k), sweep("map", "kind=%s check=func,iter refill=1 from=60 to=300 step=16 pats=5" % k), sweep("map", "kind=%s check=func,iter refill=1 from=1020 to=5200 step=1040 pats=2" % k)]
q += [sweep("map", "kind=%s check=func,iter family=cycles sizes=5 pats=2 size=0" % k) for k in ("hash", "rb", "assoc")]
q += [sweep("map", "kind=hash check=func,iter size=3 hash=7 refill=1 from=1 to=30 pats=9"), sweep("map", "kind=hash check=func,bal family=cost size=0 from=250 to=1100 step=50 pats=2")]
for k in ("list", "slist"):
    q += [bfs("list", "kind=%s check=func cap=6 dom=2 sorted=%d" % (k, s)) for s in (0, 1)] + [bfs("list", "kind=%s check=func cap=3 dom=2 tail=4" % k), bfs("list", "kind=%s check=func cap=3 dom=2 pool=2" % k), sweep("list", "kind=%s check=func from=0 to=30 pats=9" % k)]
for k in ("stack", "queue", "async"):
    q += [bfs("sq", "kind=%s check=func cap=6" % k), bfs("sq", "kind=%s check=func cap=4 pool=2" % k), bfs("sq", "kind=%s check=func cap=3 tail=5" % k), sweep("sq", "kind=%s check=func from=0 to=200" % k)]
q += [bfs("buf", "check=rd,inv max=4 fillmax=3 alpha=2"), bfs("buf", "check=rd,inv max=3 fillmax=4 tail=2 alpha=2"), sweep("buf", "check=rd,inv family=two from=0 to=140 step=3"), sweep("buf", "check=rd,inv family=stream from=1 to=130 step=3 total=3000")]
q += [bfs("buf", "check=rd,inv max=%d prefill=%d fillmax=2 alpha=2 bigfill=1 depth=5" % (m, p)) for m in (64, 65, 128, 300) for p in (m - 1, m)]
q += [sweep("buf", "check=rd,inv family=cycles sizes=7")]
q += [aq("all threads=2 len=3 alpha=uoc total=5 check=lin")]
prop("C24", q, [sweep("map", "kind=%s check=func,iter family=cycles sizes=6 pats=9 null=1 size=0" % k) for k in ("hash", "rb", "assoc")] + [sweep("buf", "check=rd,inv family=cycles sizes=8")] + [sweep("map", "kind=%s check=func,iter refill=1 from=0 to=400 pats=9" % k) for k in ("hash", "rb", "assoc")] + [sweep("list", "kind=%s check=func from=0 to=200 pats=9" % k) for k in ("list", "slist")] +
     [bfs("list", "kind=%s check=func cap=10 dom=2" % k) for k in ("list", "slist")], assumptions=A_SEQ + A_SCHED[:2])


# --------------------------------------------------------------------------- const operations by several threads
prop("C25", ["2* sc rd all to=6", "8* sc rd all to=4 access=1 pb=1", "2* sc rd all threads=3 to=4", "8* sc rd all to=2 access=1 pb=2", "1* sc rd all from=7 to=17", "4* sc rd all from=31 to=44 step=3", "8* sc rd all from=255 to=259", "2* sc rd all from=46 to=50 kind=%d" % 9, "2* sc rd all from=94 to=98 kind=%d" % 9],
     ["8* sc rd all to=13 access=1 pb=1", "8* sc rd all to=6 access=1 pb=2", "8* sc rd all threads=3 to=4 access=1 pb=1"], assumptions=A_SEQ[:3] + A_SCHED[:1])


# --------------------------------------------------------------------------- memory stays bounded
def churn(args, n=8):
    return "%d* mc churn sweep %s" % (n, args)


q = []
for k, xs in (("hash", ("", "keys=1 free=1", "keys=2 size=3", "keys=3")), ("rb", ("", "keys=1 free=1", "pool=1", "pool=3")), ("assoc", ("", "keys=1 free=1")),
              ("list", ("", "free=1", "pool=1", "pool=3")), ("slist", ("", "free=1", "pool=2", "pool=3"))):
    for i, x in enumerate(xs):
        q += [churn("kind=%s len=%d from=0 to=2 %s" % (k, 3 if i else 4, x)), churn("kind=%s len=3 from=5 to=17 step=12 burstall=1 %s" % (k, x))]
    q += [churn("kind=%s len=2 from=64 to=300 step=236 burstall=1" % k), churn("kind=%s len=2 from=3 burst=%d" % (k, 70), 4)]
q += [churn("kind=hash len=2 from=1100 burstall=1"), churn("kind=hash len=2 from=260 burst=300 keys=1 free=1"), churn("kind=hash len=2 from=100 burst=129 keys=2")]
for k in ("stack", "queue", "async"):
    q += [churn("kind=%s len=5 from=0 to=2" % k), churn("kind=%s len=4 from=3 pool=1 burst=5" % k, 4), churn("kind=%s len=4 from=0 to=2 pool=2 free=1" % k), churn("kind=%s len=3 from=100 to=300 step=200 burstall=1 pool=4" % k)]
for i, b in ((2, 2), (8, 3), (24, 4), (13, 7), (40, 64)):
    q += [churn("kind=pool isize=%d bsize=%d len=4 from=0 to=2 burst=%d" % (i, b, b + 1)), churn("kind=pool isize=%d bsize=%d len=3 from=%d to=%d burst=%d" % (i, b, b, b + 2, 2 * b))]
q += [churn("kind=pool len=2 isize=%d bsize=%d from=300 burstall=1" % x) for x in ((24, 4), (64, 64), (8, 64))]
for k, x in ((0, "isize=24"), (1, "isize=64"), (1, "isize=33 limit=100"), (0, "isize=70"), (0, "isize=1000 limit=5000"), (1, "isize=1 limit=3"), (0, "isize=600"), (1, "isize=4500"), (0, "isize=257 limit=2000")):
    q += [churn("kind=buffer len=3 %s from=0 to=3 keys=%d burst=2" % (x, k)), churn("kind=buffer len=2 %s from=10 burstall=1 keys=%d" % (x, k), 2)]
q += [churn("kind=buffer len=4 isize=24 from=0 to=2 burst=3")]
prop("C26", q, [churn("kind=%s len=5 from=0 to=1" % k) for k in ("hash", "rb", "assoc", "list", "slist", "buffer", "pool")] +
     [churn("kind=%s len=4 from=3 to=5" % k) for k in ("hash", "rb", "assoc", "list", "slist")] + [churn("kind=%s len=3 from=30 to=70 step=10 burstall=1" % k) for k in ("hash", "rb", "assoc", "list", "slist")] +
     [churn("kind=%s len=2 from=3000 burstall=1" % k) for k in ("hash", "rb", "list", "slist")] + [churn("kind=hash len=2 from=4200 to=17000 step=12800 burstall=1 maxsteps=3000000")])

# --------------------------------------------------------------------------- effort
c = "sc cost all "
prop("C27", ["2* " + c + "sizes=14 len=1", "8* " + c + "sizes=14 len=2", "4* " + c + "first=14 sizes=18 len=0", "2* " + c + "first=18 sizes=19 len=0"],
     ["8* " + c + "sizes=10 len=3", "8* " + c + "sizes=18 len=1"], assumptions=A_SEQ[:3] + ["steps are memory accesses of the library's code, a block copied or cleared counting one per 16 bytes; allocator and callbacks are not counted"])

# --------------------------------------------------------------------------- debug builds


def debug(specs):
    """the same explorations on a library built with assertions"""
    return [re.sub(r"\b([ms])c ", r"\1d ", s, 1) for s in specs]


def union(ids):
    q = []
    for p_ in ids:
        q += [s for s in QUICK[p_] if s not in q]
    return q


q = [s for s in union(["C01", "C03", "C05", "C06", "C07", "C09", "C10", "C11", "C15", "C16", "C23"]) if not re.search("from=6[56]...|from=16510|hash=7 form=1|dom=3 size=5|dom=8$|fillmax=3|max=8|max=6|max=9|from=250 to=2050|update=1", s)]
prop("C28", debug(q + [bfs("buf", "check=fd max=2 fillmax=2 alpha=2 ops=fill,line,clear,fd fdno=0"), aq("all threads=2 len=2 check=lin", 1), aq("all threads=2 len=3 check=lin", 8), aq("time deep=1 check=time")]), debug(union(["C01", "C03", "C05", "C06", "C07", "C08", "C09", "C10", "C11", "C12", "C15", "C16", "C17", "C18", "C20", "C23", "C24"])))
