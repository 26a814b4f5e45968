"""Which builds exist and which runs make up each property's check."""
import json, os, re, shutil


def _main(env, root, target, stable, nightly, triple):
    return (["cargo", "build", "--offline", "--bins"], env(), os.path.join(target, "debug", "vh"))


SANITIZED = ["--no-default-features", "--features", "http,futio,mmap,brotli", "--bin", "vh"]


def _sanitized(kind, flags, std):
    def f(env, root, target, stable, nightly, triple):
        d = os.path.join(target, kind)
        cmd = ["cargo", "build", "--offline", "--target", triple] + (["-Zbuild-std"] if std else []) + SANITIZED
        return cmd, env(RUSTUP_TOOLCHAIN=nightly, RUSTFLAGS=flags, CARGO_TARGET_DIR=d), os.path.join(d, triple, "debug", "vh")
    return f


def _miri(env, root, target, stable, nightly, triple):
    # Builds, and runs nothing of interest.
    cmd = ["cargo", "miri", "run", "--offline"] + MIRI_FEATURES + ["--bin", "vh", "--", "child", "C29", "none"]
    return cmd, env(RUSTUP_TOOLCHAIN=nightly, CARGO_TARGET_DIR=os.path.join(target, "miri"), XDG_CACHE_HOME=os.path.join(target, "cache"),
                    MIRIFLAGS="-Zmiri-disable-isolation"), None


MIRI_FEATURES = ["--no-default-features", "--features", "futio,brotli"]
BUILDS = {
    "main": _main,
    "asan": _sanitized("asan", "-Zsanitizer=address -Cforce-frame-pointers=yes", False),
    "msan": _sanitized("msan", "-Zsanitizer=memory -Cforce-frame-pointers=yes", True),
    "tsan": _sanitized("tsan", "-Zsanitizer=thread", True),
    "miri": _miri,
}
SETUP = ["main", "asan", "msan", "tsan", "miri"]


NOT_APPLICABLE = []


class Simple:
    """One run of the instrumented harness."""
    level = "exploration"

    def __init__(self, technique, rule, note, level=None, assumptions=None):
        self.technique, self.rule, self.note, self.assumptions = technique, rule, note, assumptions
        if level:
            self.level = level

    def go(self, c, build):
        c.harness(build("main"))
        c.finish(self.level, self.rule, self.assumptions)

    def replay(self, c, build, r):
        st, text = c.harness(build("main"), replay="%s:%s" % (r["scenario"], r["case"]))
        print(text)
        c.missing = []
        c.finish(self.level, self.rule, self.assumptions)


# What runs under which checker, in thousandths of the quick number of cases.
_ALL = [("C29", 1000), ("C01", 100), ("C02", 80), ("C03", 80), ("C04", 60), ("C06", 100), ("C07", 100), ("C08", 20), ("C09", 100),
        ("C10", 100), ("C12", 60), ("C13", 80), ("C14", 100), ("C16", 60), ("C17", 100), ("C18", 100), ("C20", 100), ("C21", 100),
        ("C22", 50), ("C24", 200), ("C27", 60), ("C28", 100)]
_THREADS = [("C29", 400), ("C06", 60), ("C07", 60), ("C08", 3), ("C10", 50), ("C16", 40), ("C17", 60), ("C18", 100), ("C19", 60),
            ("C20", 80), ("C22", 20), ("C27", 40), ("C28", 80)]
JOBS = [
    ("asan", _ALL, "uaf leak"), ("msan", _ALL, "uninit"), ("tsan", _THREADS, "race"), ("miri", [("C29", 1000)], "uninit race"),
]
_REPORT = re.compile(r"(ERROR: AddressSanitizer|ERROR: LeakSanitizer|WARNING: MemorySanitizer|WARNING: ThreadSanitizer|"
                     r"error: Undefined Behavior|error: memory leaked)")


class Sanitizers:
    """The workloads of other checks, in builds that check memory."""
    level = "exploration"
    technique = ("address, leak, memory and thread sanitizers and an interpreter over the workloads of the other checks and one of "
                 "its own with hostile sources; a planted defect of each kind must be reported in every run")
    rule = ("one evaluation = one case of a workload completed under one checker; distinct = by the workload's own measure, "
            "per workload and checker")
    note = ("Finite samples of schedules and inputs. Library code of dependencies is instrumented too; only the reference "
            "counting of one dependency is excluded from race reports.")

    def command(self, kind, binary, args):
        if kind == "miri":
            return ["cargo", "miri", "run", "--offline", "-q"] + MIRI_FEATURES + ["--bin", "vh", "--"] + args
        return [binary] + args

    # The runtime of the HTTP client keeps part of itself when stopped at work.
    RUNTIME = ("C17", "C20", "C27", "C28")

    def setting(self, c, kind, mod, archives=False, prop=None):
        sup = os.path.join(mod.ROOT, "tools", "tsan.supp")
        o = dict(ASAN_OPTIONS="detect_leaks=%d:exitcode=99" % (prop not in self.RUNTIME), LSAN_OPTIONS="exitcode=99", MSAN_OPTIONS="exitcode=99",
                 TSAN_OPTIONS="exitcode=99:halt_on_error=1:suppressions=" + sup)
        if kind == "miri":
            o.update(RUSTUP_TOOLCHAIN=mod.NIGHTLY, CARGO_TARGET_DIR=os.path.join(mod.TARGET, "miri"),
                     XDG_CACHE_HOME=os.path.join(mod.TARGET, "cache"),
                     MIRIFLAGS="-Zmiri-disable-isolation -Zmiri-permissive-provenance -Zmiri-tree-borrows -Zmiri-seed=%d" % c.seed
                     + (" -Zmiri-disable-validation" if archives else ""))
            if archives:
                o["VH_ARCHIVES"] = "1"
        return mod.env(**o)

    def job(self, c, mod, kind, binary, prop, scale, seed, archives=False):
        """One workload under one checker: (status, text, result or None)."""
        label = "%s-%s-%d%s" % (kind, prop, seed, "a" if archives else "")
        out, sc = os.path.join(c.scratch, label + ".json"), os.path.join(c.scratch, label)
        tier = c.tier if prop == "C29" else "quick"
        args = [prop, "--tier", tier, "--seed", str(seed), "--scale", str(scale), "--scratch", sc, "--out", out]
        cwd = os.path.join(mod.ROOT, "harness") if kind == "miri" else c.scratch
        st, text = mod.run(self.command(kind, binary, args), c.left(), env=self.setting(c, kind, mod, archives, prop), cwd=cwd)
        res = None
        if os.path.exists(out):
            with open(out) as f:
                res = json.load(f)
        shutil.rmtree(sc, ignore_errors=True)
        return st, text, res

    def judge(self, c, kind, prop, scale, seed, archives, st, text, res):
        m = _REPORT.search(text)
        if st is None:
            c.errors.append("%s under %s: no result within the limit; inconclusive" % (prop, kind))
        elif m or (st is not None and st < 0) or (st == 86):
            at = m.start() if m else 0
            head = next((l.strip() for l in text[at:].splitlines() if "SUMMARY" in l), text[at:at + 200].splitlines()[0] if text else "")
            frames = [l.strip() for l in text[at:].splitlines() if "/repo/" in l][:4]
            c.evals += 1
            c.violations.append({"scenario": "%s:%s" % (kind, prop), "case": "%d:%d:%d" % (seed, scale, archives), "part": kind,
                                 "what": ("%s %s" % (m.group(1) if m else "status %s" % st, head))[:400],
                                 "trace": "\n".join(frames) + "\n" + text[at:at + 6000]})
        elif st != 0 or res is None:
            c.errors.append("%s under %s ended with status %s: %s" % (prop, kind, st, text[-800:]))
        else:
            c.evals += res["evaluations"]
            c.distinct += res["distinct"]
            k = "%s: cases" % kind
            c.counters[k] = c.counters.get(k, 0) + res["evaluations"]
            for x, v in res["counters"].items():
                if prop == "C29":
                    k = "%s: %s" % (kind, x)
                    c.counters[k] = c.counters.get(k, 0) + v
            if res["violations"]:
                # Judged by that property's own check, not here.
                c.counters["departures seen in other workloads, not judged"] = \
                    c.counters.get("departures seen in other workloads, not judged", 0) + len(res["violations"])
            c.samples += ["%s %s %s" % (kind, prop, x) for x in res["samples"][:1]]

    def go(self, c, build):
        import check as mod
        from concurrent.futures import ThreadPoolExecutor
        bins = {k: build(k) for k, _, _ in JOBS}
        seeds = [c.seed] if c.tier == "quick" else [c.seed * 1000 + i for i in range(4)]
        todo = []
        for kind, jobs, canaries in JOBS:
            for w in canaries.split():
                todo.append(("canary", kind, w))
            for s in seeds if kind != "miri" else [c.seed]:
                for p, scale in jobs:
                    todo.append(("job", kind, p, scale, s, False))
            if kind == "miri":
                todo.append(("job", kind, "C29", 1000, c.seed, True))
        todo.sort(key=lambda t: t[1] != "miri")

        def one(t):
            if t[0] == "canary":
                cwd = os.path.join(mod.ROOT, "harness") if t[1] == "miri" else c.scratch
                return mod.run(self.command(t[1], bins[t[1]], ["child", "C29", t[2]]), c.left(), env=self.setting(c, t[1], mod), cwd=cwd)
            return self.job(c, mod, t[1], bins[t[1]], *t[2:])

        with ThreadPoolExecutor(6) as ex:
            done = list(ex.map(one, todo))
        for t, r in zip(todo, done):
            if t[0] == "canary":
                if r[0] == 0 or not _REPORT.search(r[1]):
                    c.errors.append("%s did not report a planted %s (status %s): %s" % (t[1], t[2], r[0], r[1][-500:]))
                else:
                    c.counters["planted defects reported"] = c.counters.get("planted defects reported", 0) + 1
            else:
                self.judge(c, t[1], t[2], t[3], t[4], t[5], *r)
        c.finish(self.level, self.rule)

    def replay(self, c, build, r):
        import check as mod
        kind, prop = r["scenario"].split(":")
        seed, scale, arch = [int(x) for x in r["case"].split(":")]
        st, text, res = self.job(c, mod, kind, build(kind), prop, scale, seed, bool(arch))
        print(text[-6000:])
        self.judge(c, kind, prop, scale, seed, bool(arch), st, text, res)
        c.finish(self.level, self.rule)


PROPS = {
    "C01": Simple(
        "model-checked histories: generated append/convert/clone/read sequences against a byte-vector model",
        "one case = one generated history over a sink or a body built directly in a state; distinct = by operation "
        "sequence and content; every case compares bytes",
        "Seeded histories; lengths cluster at buffer, page and slice boundaries. Finite sample of an unbounded space."),
    "C02": Simple(
        "scripted byte sources (splits, interruptions, errors, dirtied buffers) against the bytes they served",
        "one case = one ingest of one scripted source under one configuration; distinct = by length, script, estimate "
        "and tunables",
        "Seeded scripts around buffer and threshold boundaries; sources that produce data after their end are not generated."),
    "C03": Simple(
        "boundary probing of every intake path with a length oracle",
        "one case = one body of a length around the maximum through one path; distinct = by path, lengths, chunking and "
        "configuration",
        "Lengths within a few bytes of the limit, plus far beyond; finite sample of chunkings."),
    "C04": Simple(
        "counting allocator high-water mark, placement and file-call monitors over long bodies",
        "one case = one body through one path with measured heap; distinct = by path, length and configuration",
        "Heap bound checked: twice the RAM limit plus four times the buffers plus 64 KiB plus the decoder's own measured "
        "cost; buffers of 2 KiB and more."),
    "C05": Simple(
        "system-call fault injection at every operation of generated histories; success implies exact bytes",
        "one case = one history re-run with a fault at each chosen operation; distinct = by history, operation and fault",
        "Sweeps all operations of short histories and a sample of long ones; one fault per run (or short transfer plus "
        "no space).", level="fault_enumeration"),
    "C06": Simple(
        "open/close/map monitors, directory listings and /proc censuses over create/convert/clone/drop histories, with "
        "and without injected faults",
        "one case = one history ending with everything dropped and a census; distinct = by operation sequence",
        "Seeded histories; kernel's own view (/proc/self/fd, maps) is the oracle for release."),
    "C07": Simple(
        "threads serialised at file operations and read steps by a seeded scheduler, plus free-running threads; each "
        "reader against the byte model",
        "one case = one group of threads over clones of one body; distinct = by schedule hash (scheduled) or inputs "
        "(free-running)",
        "Interleaving granularity is file operations and read calls; instruction-level races are left to C29."),
    "C08": Simple(
        "generated records through writer and reader, compared field by field with the plain values they were made of",
        "one case = one or more records written and read back under one reader configuration; distinct = by record shape, "
        "strategy and configuration",
        "Header values carry no edge whitespace; brotli levels from 2 (the encoder dependency has defects below)."),
    "C09": Simple(
        "write/reopen/seek/read histories against an offset model; whole file compared with its earlier image after "
        "every operation",
        "one case = one history of operations over one archive path; distinct = by returned offsets",
        "One writer session at a time; handles used alternately."),
    "C10": Simple(
        "readers of a growing archive run at every file operation of the writer, under a seeded scheduler, in another "
        "process, and freely against heads laid across page boundaries; each look against the acknowledged records",
        "one case = one archive grown under observation; distinct = by look points, schedule hash or head positions",
        "Scheduled interleavings are at file operations; tears inside one write arise only in the free-running part."),
    "C11": Simple(
        "file image taken at every writer operation (and inside extending writes) and read as after a crash; faults "
        "injected at writer operations with continued use",
        "one evaluation = one image or one faulted history; distinct = by image position or fault",
        "Crashes are modelled by images of the file, with extending writes cut anywhere; loss of cached pages by the "
        "kernel is not modelled.", level="fault_enumeration"),
    "C12": Simple(
        "hostile files (every truncation, adversarial heads, mutations, expanding payloads, arbitrary positions) read "
        "under panic, file-call, heap and offset monitors",
        "one probe = one file read from one position until end, error or twelve records; distinct = by file content and "
        "position; every returned record is compared with the blocks its head announces",
        "RAM limits up to 1 MiB; heap bound 128 MiB; panics observed with overflow checks on."),
    "C13": Simple(
        "independent encoder and decoder of the published format on either side of the library",
        "one case = one file of up to four records; distinct = by file bytes",
        "The independent code uses the same gzip and brotli dependencies."),
    "C14": Simple(
        "generated dialogs converted to a record, through a file, and back; garbled records expected to be refused by name",
        "one case = one dialog (three comparisons) or one garbled record; distinct = by field values",
        "Garbled values are taken from a fixed list per field; all pairs of encodings and versions arise."),
    "C15": Simple(
        "the documented policy evaluated over plain values against the compression flag found in the file",
        "one case = one record written with one strategy; distinct = by lengths, types and strategy",
        "Minimum lengths cluster at the value where the answer changes; 34 content types."),
    "C16": Simple(
        "threads contending for one archive handle, held inside writes until others wait; file order checked against "
        "returned offsets and per-thread order",
        "one case = one set of writer threads over one archive; distinct = by order of threads in the file",
        "Finite sample of thread counts, records and strategies; a deadlock is recognised by all threads being asleep."),
    "C17": Simple(
        "streams of every kind drained by hand, on threads and on a runtime, with interrupted and short reads; items "
        "against the body bytes, read sizes against the buffer limit",
        "one case = one stream, or one group of streams, drained to its end and beyond; distinct = by kind, state, sizes "
        "and item lengths",
        "Bodies up to 300 kB; buffer and item sizes from one byte."),
    "C18": Simple(
        "sinks of every kind fed by hand, on threads and from streams; stored bytes, place and files created against a "
        "model of the RAM limit",
        "one case = one sink, group of sinks or pipeline; distinct = by kind, limit and buffer lengths",
        "Bodies up to 200 kB; limits at and next to every boundary between buffers."),
    "C19": Simple(
        "every file operation judged at the system call: by permits out, by thread, or by operations running at once",
        "one case = one transfer or group of transfers under one policy; distinct = by poll trace or order of operations",
        "Mapped pages are read without calls: there, delivery without a permit is judged instead."),
    "C20": Simple(
        "tasks polled only when woken by a seeded executor, on threads and on a runtime, with drops at any poll; "
        "permits, bodies and descriptors examined afterwards",
        "one case = one group of transfers; distinct = by poll schedule",
        "A lost wake-up shows as tasks nobody can wake, or as a process asleep; finite sample of schedules."),
    "C21": Simple(
        "size hint, end flag and trailers read at every point between polls and compared with the bytes to come",
        "one case = one HTTP body polled to its end; distinct = by kind, state, sizes and item lengths",
        "Bodies up to 100 kB."),
    "C22": Simple(
        "responses encoded by independent encoders under every combination and spelling of codings, then decoded, "
        "truncated, corrupted or unsupported",
        "one case = one response dialog decoded once; distinct = by codings, lengths and outcome",
        "First gzip member and raw deflate only; bytes after the end of compressed data are not judged."),
    "C23": Simple(
        "the encoding headers evaluated by an independent parser against the discovered list",
        "one case = one set of headers; distinct = by header values",
        "Headers whose bytes are not text are judged for agreement between the functions only."),
    "C24": Simple(
        "owned, mapped and split buffers driven by random operations against a byte model",
        "one case = one buffer and its parts through a history of operations; distinct = by operations",
        "Split size zero and advancing beyond the end are not exercised."),
    "C25": Simple(
        "the tool run on archives made by an independent encoder, its output parsed and compared record by record; "
        "input directory compared before and after",
        "one evaluation = one call of the tool, with the selection, the damage or the refusal expected; distinct = by archive "
        "layout and arguments",
        "Archives of up to six records per file; offsets given are those of records."),
    "C26": Simple(
        "histories of copies among archives, each output decoded independently and compared; copies onto the input by "
        "nine spellings of its path",
        "one case = one history of calls, one copy onto itself, or one failing call; distinct = by arguments",
        "The tool runs with CPU and file size limits; a copy that feeds on itself shows as the limit being hit."),
    "C27": Simple(
        "a scripted server in place of the network: sound, cut, malformed, oversized and stalling responses in any "
        "fragmentation; each dialog compared with the script; the same over loopback for the blocking call and the record command",
        "one evaluation = one exchange (or one set of concurrent clients); distinct = by exchange parameters",
        "Timeouts run on a clock that only moves when everything waits. Chunk sizes that the HTTP library itself accepts "
        "or fails on are not used."),
    "C28": Simple(
        "requests of every body kind built and sent to a scripted server; the recording, the request and the bytes arriving compared",
        "one evaluation = one request built, or built and sent; distinct = by method, headers and body",
        "Bodies the HTTP library itself withholds (unknown length with GET or HEAD) are counted, not judged."),
    "C29": Sanitizers(),
    "C30": Simple(
        "threads logging at once in a process of their own, every printed line attributed to exactly one planned message",
        "one case = one process with up to eight threads; distinct = by order of threads in the output and plan",
        "Messages contain no line ends; lines of different processes are not judged."),
    "C31": Simple(
        "both builders driven by random sequences of settings, copies and finishes against a model of plain values; "
        "refusals observed; bodies collected under the result while its reads, files and length are watched",
        "one case = one history of a builder, or one body collected under a configuration; distinct = by history",
        "Refusal means the documented panic; what a builder holds after one is not judged."),
    "C32": Simple(
        "failures of a known kind injected into file calls, sources, destinations and connections, and the returned error "
        "followed back to them; refused input with the expected error and value",
        "one case = one failure or refusal; distinct = by operation, position and kind of failure",
        "Beyond the text of the cause and the values named, the wording of messages is not judged."),
    "C33": Simple(
        "the tool run against a scripted server on the loopback interface, with sound and failing exchanges; the request "
        "received, the archive (decoded independently), the exit status and leftovers compared",
        "one evaluation = one run of the tool; distinct = by options, response and failure",
        "Plain HTTP to a loopback address only; runs one after another."),
}
