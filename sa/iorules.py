"""Rules for files: who opens them, how they are closed, what is written to them."""


def via_set(k):
    """how the reviewed tree reaches the file system in this case"""
    return {x.split(":", 1)[1] for x in k.get("io", ()) if x.startswith(("open:", "fs:"))}


def late(case):
    """the exceptional way out, if any, on which an output file was truncated before the input was rejected"""
    for (site, via), exits in case.files.items():
        for how, (closed, mode) in exits.items():
            if site != "caller" and isinstance(mode, str) and "w" in mode and how != "return" and "(I/O error)" not in how:
                return how
    return None


def malformed(j, case):
    """a malformed input is rejected before an existing output file is truncated"""
    j.n["files"] += 1
    how = late(case)
    if how and not j.k.get("late"):
        yield j.out("truncates", f"the output file is opened for writing before the malformed input is rejected ({how})")


def judge(j, case):
    if "rej" in j.k:
        yield from malformed(j, case)
        return
    if case.stopped and not j.e.rejects:
        return
    seen = set()
    ok = via_set(j.k)
    for e in case.events:
        if e.kind in ("open", "fs"):
            j.n["accesses"] += 1
            via = str(e.data.get("via") or e.data.get("op"))
            if via not in ok and not via.startswith("path_manager:caller") and ok and any(x.startswith("path_manager:caller") for x in ok):
                yield j.out(f"{e.kind} {via}", f"the file system is accessed through {via} and not through the path manager that was passed in", e.loc)
        elif e.kind == "file_write":
            j.n["writes"] += 1
            m = e.data.get("mode")
            if isinstance(m, str) and not set(m) & set("wax+"):
                yield j.out("write mode", f"writes to a file opened with mode {m!r}", e.loc)
            elif e.data.get("closed") is True:
                yield j.out("write closed", "writes to a file that is closed already", e.loc)
        elif e.kind == "file_kind" and e.cond == 0:
            yield j.out(f"write {e.data['got']}", f"writes {e.data['got']} to a file opened with mode {e.data['mode']!r}", e.loc)
    for (site, via), exits in case.files.items():
        for how, (closed, mode) in exits.items():
            j.n["files"] += 1
            if site == "caller":
                if closed is not False and "caller" not in seen:
                    seen.add("caller")
                    yield j.out("closes caller stream", f"the stream that the caller passed in is closed ({how})")
            elif closed is not True and site not in seen:
                seen.add(site)
                yield j.out(f"leaves open {via}", f"the file opened at {site} is not closed on the way out: {how}")
            if j.e.rejects and site != "caller" and isinstance(mode, str) and "w" in mode and how != "return" and "(I/O error)" not in how and "touch" not in seen:
                seen.add("touch")
                yield j.out("truncates", f"the output file is opened for writing before the malformed input is rejected ({how})")
