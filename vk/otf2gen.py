"""OTF2 archives: generator of cases, writer (the otf2 library itself) and expected content."""
from vk import gen
from hypothesis import strategies as st

RES = [1, 10**3, 10**6, 10**9, 10**9, 10**9, 2_400_000_000, 3, 10**7, 10**12]
DT = st.one_of(st.sampled_from([0, 0, 0, 1, 1, 2, 5]), st.integers(0, 30), st.integers(0, 10**6))
KINDS = ["E"] * 8 + ["L"] * 8 + ["send", "isend", "isendc", "recv", "irecv", "irecvr", "collb", "colle", "fork", "join",
                                 "pint", "pstr", "flush", "onoff"]
VT = ["UINT64", "INT64", "DOUBLE"]
# how locations and location groups are numbered: as they come, with gaps, or like Score-P with the thread in the upper half
LREF = ["seq", "seq", "gap", "scorep"]
GREF = [0, 0, 0, 0, 5, 300, 70000, 2**31 - 1, 2**31]
RNAMES = st.one_of(gen.FNAMES, st.text(alphabet="ab \t\u00e9\u4e2d<>-", min_size=0, max_size=5))


@st.composite
def archive(draw, metrics=None, messy=True, noncpu=True, sizes=(3, 10, 30, 60), max_groups=4, max_threads=3, counters_only=False):
    ng = draw(st.integers(1, max_groups))
    groups = []
    for _ in range(ng):
        locs = ["CPU_THREAD"] * draw(st.integers(1, max_threads))
        if noncpu and draw(st.integers(0, 5)) == 0:
            x = draw(st.sampled_from(["GPU", "METRIC"]))
            locs.insert(draw(st.integers(0, len(locs))), x)
        groups.append(locs)
    if noncpu and draw(st.integers(0, 7)) == 0:
        groups.insert(draw(st.integers(0, len(groups))), [draw(st.sampled_from(["GPU", "METRIC"]))])
    loc_order = draw(st.one_of(st.just(list(range(len(groups)))), st.permutations(list(range(len(groups))))))
    names = draw(st.lists(RNAMES, min_size=1, max_size=5, unique=not messy))
    case = {"res": draw(st.sampled_from(RES)), "base": draw(st.sampled_from([0, 1, 1000, 10**9, 10**15])),
            "groups": groups, "loc_order": list(loc_order), "regions": names,
            "pad": draw(st.sampled_from([0, 0, 3, 12])), "lref": draw(st.sampled_from(LREF)), "gref": draw(st.sampled_from(GREF))}
    nm = draw(st.sampled_from([0, 0, 1, 2, 3])) if metrics is None else metrics
    case["members"] = [draw(st.sampled_from(VT)) for _ in range(nm)]
    if nm:
        k = draw(st.integers(0, nm))
        cls = [c for c in (list(range(k)), list(range(k, nm))) if c]
        if draw(st.booleans()):
            cls = cls[::-1]
        case["classes"] = cls
        case["mpad"] = draw(st.sampled_from([0, 0, 8, 11]))
    else:
        case["classes"], case["mpad"] = [], 0
    # counters count far: the values are multiples of a small or a large number
    scale = draw(st.sampled_from([1, 1, 123_457, 9_000_000_001])) if nm else 1
    nl = sum(len(g) for g in groups)
    n = draw(st.sampled_from(list(sizes)))
    item = st.tuples(st.integers(0, nl - 1), st.sampled_from(["E", "L"] if counters_only else KINDS),
                     st.integers(0, 50), DT, st.integers(0, 7))
    prog = draw(st.lists(item, min_size=n // 2, max_size=n))
    rep = draw(st.sampled_from([1, 1, 1, 3]))
    stacks = [[] for _ in range(nl)]
    ev, t = [], 0
    for _ in range(rep):
        for (li, k, x, dt, mm) in prog:
            t += dt
            if k == "L" and not messy and not stacks[li]:
                k = "E"
            ri = x % len(names)
            if k == "E":
                stacks[li].append(ri)
            elif k == "L":
                if stacks[li] and (x < 40 or not messy):
                    ri = stacks[li].pop()
            e = [li, t, k, ri if k in "EL" else x]
            if k in "EL" and case["classes"]:
                # which metric classes are recorded with this event
                e.append([c for c in range(len(case["classes"])) if mm >> c & 1])
                e.append([((x * 7 + t * 13 + j * 5) % 997 - (400 if case["members"][j] == "INT64" else 0)) * scale for j in range(nm)])
            ev.append(e)
    for li in range(nl):
        while stacks[li] and (not messy or len(prog) % 3):
            t += 1
            ev.append([li, t, "L", stacks[li].pop()] + ([[], []] if case["classes"] else []))
    case["events"] = ev
    case["accel"] = draw(st.sampled_from([None, None, None, 0, 1]))
    case["rich"] = draw(st.booleans())
    case["parallel"] = draw(st.sampled_from([None, None, 1, 2, 3]))
    return case


def longer(case, n):
    """The events of an archive over and over again, about n of them."""
    ev = case["events"]
    if not ev:
        return case
    step = ev[-1][1] - ev[0][1] + 1
    return dict(case, events=[[e[0], e[1] + j * step] + list(e[2:]) for j in range(max(1, n // len(ev))) for e in ev])


def crowded(case, k):
    """k copies of the processes of an archive; every second one has regions of its own."""
    ng, nl, nr = len(case["groups"]), sum(len(g) for g in case["groups"]), len(case["regions"])
    k = min(k, 400 // nl)
    ev = [(e[1], j, i, [e[0] + j * nl, e[1], e[2], e[3] + (j // 2 + 1) * nr * (j % 2) if e[2] in "EL" else e[3]] + list(e[4:]))
          for j in range(k) for i, e in enumerate(case["events"])]
    ev.sort(key=lambda x: x[:3])
    return dict(case, chunks={"chunk_size_events": 1 << 18, "chunk_size_definitions": 1 << 18}, groups=case["groups"] * k, loc_order=[j * ng + g for j in range(k) for g in case["loc_order"]],
                regions=case["regions"] + [r + "_%d" % j for j in range(1, k, 2) for r in case["regions"]], events=[x[3] for x in ev])


class Written:
    """What an archive contains, as far as the reader's contract goes."""


def value(case, j, v):
    return v * 0.5 if case["members"][j] == "DOUBLE" else v


def _enums():
    import otf2.enums as E

    return E


def write(case, path):
    import otf2

    E = _enums()
    w = Written()
    with otf2.writer.open(path, timer_resolution=case["res"], **case.get("chunks", {})) as tr:
        d = tr.definitions
        root = d.system_tree_node("machine", class_name="machine")
        node = d.system_tree_node("node0", class_name="node", parent=root)
        pads = [d.region("unused %d" % i, begin_line_number=1000 + i) for i in range(case["pad"])]  # noqa: F841
        regs = [d.region(nm, source_file="src%d.c" % (i % 2), begin_line_number=i + 1, end_line_number=2 * i + 2,
                         region_role=E.RegionRole.LOOP if i % 3 == 2 else E.RegionRole.FUNCTION)
                for i, nm in enumerate(case["regions"])]
        at_int = d.attribute("int attr", "an integer", E.Type.UINT64)
        at_str = d.attribute("string attr", "a string", E.Type.STRING)
        at_reg = d.attribute("region attr", "a region", E.Type.REGION)
        par_i = d.parameter("n", E.ParameterType.INT64)
        par_s = d.parameter("s", E.ParameterType.STRING)
        for i in range(case["mpad"]):
            d.metric_member("UNUSED_%d" % i, value_type=E.Type.UINT64)
        mem = [d.metric_member("CTR_%d" % j, "counter %d" % j, value_type=getattr(E.Type, vt), unit="#",
                               metric_mode=E.MetricMode.ACCUMULATED_START) for j, vt in enumerate(case["members"])]
        mcs = [d.metric_class([mem[j] for j in cl], occurrence=E.MetricOccurrence.SYNCHRONOUS) for cl in case["classes"]]
        lgs = []
        d._location_groups._ref = case.get("gref", 0) - 1
        for g, locs in enumerate(case["groups"]):
            gpu_only = all(x != "CPU_THREAD" for x in locs)
            lgs.append(d.location_group("Rank %d" % g, system_tree_parent=node if g % 2 else root,
                                        location_group_type=E.LocationGroupType.ACCELERATOR if gpu_only or g == case.get("accel")
                                        else E.LocationGroupType.PROCESS))
        locs, lkey = [None] * sum(len(g) for g in case["groups"]), {}
        first = {}
        n = 0
        for g in range(len(case["groups"])):
            for k in range(len(case["groups"][g])):
                lkey[(g, k)] = n
                n += 1
        w.loc = [None] * n  # per location index: (process, thread) or None
        for g in case["loc_order"]:
            th = 0
            for k, ty in enumerate(case["groups"][g]):
                style = case.get("lref", "seq")
                if style != "seq":
                    d._locations._ref = (k << 32 | g if style == "scorep" else 1000 * g + 7 * k + k * k) - 1
                lo = d.location("L%d.%d" % (g, k), type=getattr(E.LocationType, ty), group=lgs[g])
                locs[lkey[(g, k)]] = lo
                if ty == "CPU_THREAD":
                    first.setdefault(g, lo)
                    w.loc[lkey[(g, k)]] = (lgs[g]._ref, th)
                    th += 1
        heads = [first[g] for g in sorted(first)]
        gl = d.group("locs", group_type=E.GroupType.COMM_LOCATIONS, paradigm=E.Paradigm.MPI, members=heads)  # noqa: F841
        g0 = d.group("all", group_type=E.GroupType.COMM_GROUP, paradigm=E.Paradigm.MPI, members=list(range(len(heads))))
        g1 = d.group("one", group_type=E.GroupType.COMM_GROUP, paradigm=E.Paradigm.MPI, members=[len(heads) - 1])
        comms = [d.comm("WORLD", group=g0)]
        comms.append(d.comm("SUB", group=g1, parent=comms[0]))
        if case["rich"]:
            d.callsite(source_file="x.c", line_number=3, entered_region=regs[0], left_region=regs[-1])
            cp = d.callpath(parent=None, region=regs[0])
            d.callpath(parent=cp, region=regs[-1])
            d.group("regions", group_type=E.GroupType.REGIONS, members=[regs[-1], regs[0]])
            dims = [d.cart_dimension("x", 2), d.cart_dimension("y", 3)]
            top = d.cart_topology("grid", comms[0], (dims[1], dims[0]))
            d.cart_coordinate(top, 0, (1, 2))
            if mcs:
                d.metric_instance(mcs[0], recorder=locs[0], scope=lgs[0])
            d.rma_win("win", comm=comms[1])
            d.location_property(locs[0], "tid", value=17)
            d.system_tree_node_property(root, "platform", value="Linux")
            scl = d.source_code_location("y.c", 12)
            cc = d.calling_context(regs[0], scl, None)
            d.calling_context(regs[-1], None, cc)
        ws = [tr.event_writer_from_location(lo) for lo in locs]
        base = case["base"]
        rows = []
        times = []
        for i, e in enumerate(case["events"]):
            li, t, k, x = e[:4]
            t += base
            times.append(t)
            wr = ws[li]
            ms = {}
            if k in ("E", "L"):
                if len(e) > 4:
                    for c in e[4]:
                        vals = [value(case, j, e[5][j]) for j in case["classes"][c]]
                        wr.metric(t, mcs[c], vals)
                        for j, v in zip(case["classes"][c], vals):
                            ms["CTR_%d" % j] = v
                r = regs[x]
                at, exp = None, {"region": "Region %d" % r._ref}
                if k == "E":
                    if i % 5 == 1:
                        at, exp["attributes"] = {at_int: i}, {"Attribute %d" % at_int._ref: i}
                    elif i % 5 == 2:
                        text = "" if x * 3 + i % 7 == 3 else "v%d" % i
                        at = {at_str: text, at_reg: regs[0]}
                        exp["attributes"] = {"Attribute %d" % at_str._ref: text,
                                             "Attribute %d" % at_reg._ref: "Region %d" % regs[0]._ref}
                    elif i % 10 == 8:
                        at, exp["attributes"] = {at_int: 0}, {"Attribute %d" % at_int._ref: 0}
                    wr.enter(t, r, attributes=at)
                    rows.append([li, t, "Enter", case["regions"][x], exp, ms])
                else:
                    wr.leave(t, r)
                    rows.append([li, t, "Leave", case["regions"][x], None, ms])
                continue
            cm = comms[x % 2]
            peer, tag, size = x % 5, x % 3, x * x * 100
            C = "Comm %d" % cm._ref
            if k == "send":
                wr.mpi_send(t, receiver=peer, communicator=cm, msg_tag=tag, msg_length=size)
                nm, a = "MpiSend", {"receiver": peer, "communicator": C, "msg_tag": tag, "msg_length": size}
            elif k == "isend":
                wr.mpi_isend(t, receiver=peer, communicator=cm, msg_tag=tag, msg_length=size, request_id=x)
                nm, a = "MpiIsend", {"receiver": peer, "communicator": C, "msg_tag": tag, "msg_length": size, "request_id": x}
            elif k == "recv":
                wr.mpi_recv(t, sender=peer, communicator=cm, msg_tag=tag, msg_length=size)
                nm, a = "MpiRecv", {"sender": peer, "communicator": C, "msg_tag": tag, "msg_length": size}
            elif k == "irecv":
                wr.mpi_irecv(t, sender=peer, communicator=cm, msg_tag=tag, msg_length=size, request_id=x)
                nm, a = "MpiIrecv", {"sender": peer, "communicator": C, "msg_tag": tag, "msg_length": size, "request_id": x}
            elif k == "isendc":
                wr.mpi_isend_complete(t, request_id=x)
                nm, a = "MpiIsendComplete", {"request_id": x}
            elif k == "irecvr":
                wr.mpi_irecv_request(t, request_id=x)
                nm, a = "MpiIrecvRequest", {"request_id": x}
            elif k == "collb":
                wr.mpi_collective_begin(t)
                nm, a = "MpiCollectiveBegin", {}
            elif k == "colle":
                wr.mpi_collective_end(t, collective_op=E.CollectiveOp.BCAST, communicator=cm, root=0, size_sent=size, size_received=x)
                nm, a = "MpiCollectiveEnd", {"collective_op": "CollectiveOp.BCAST", "communicator": C, "root": 0,
                                             "size_sent": size, "size_received": x}
            elif k == "fork":
                wr.thread_fork(t, model=E.Paradigm.OPENMP, number_of_requested_threads=x)
                nm, a = "ThreadFork", {"model": "Paradigm.OPENMP", "number_of_requested_threads": x}
            elif k == "join":
                wr.thread_join(t, model=E.Paradigm.OPENMP)
                nm, a = "ThreadJoin", {"model": "Paradigm.OPENMP"}
            elif k == "pint":
                wr.parameter_int(t, par_i, x - 25)
                nm, a = "ParameterInt", {"parameter": "Parameter %d" % par_i._ref, "value": x - 25}
            elif k == "pstr":
                text = "" if x % 10 == 7 else "p%d" % x
                wr.parameter_string(t, par_s, text)
                nm, a = "ParameterString", {"parameter": "Parameter %d" % par_s._ref, "string": text}
            elif k == "flush":
                wr.buffer_flush(t, stop_time=t + x)
                nm, a = "BufferFlush", {"stop_time": t + x}
            else:
                wr.measurement_on_off(t, measurement_mode=E.MeasurementMode.OFF if x % 2 else E.MeasurementMode.ON)
                nm, a = "MeasurementOnOff", {"measurement_mode": "MeasurementMode.OFF" if x % 2 else "MeasurementMode.ON"}
            rows.append([li, t, "Instant", nm, a, {}])
    w.offset = min(times) if times else 0
    w.rows = []
    for li, t, et, nm, a, ms in rows:
        if w.loc[li] is None:
            continue
        w.rows.append(dict(proc=w.loc[li][0], thread=w.loc[li][1], ns=(t - w.offset) * 10**9 / case["res"],
                           type=et, name=nm, attrs=a, metrics=ms))
    w.times = sorted((t - w.offset) * 10**9 / case["res"] for t in times)
    return w


def expected_definitions(path):
    """[(kind, ref or None, fields)] straight from the otf2 library, references by kind and number."""
    import otf2
    from otf2.definitions import _Definition, _RefDefinition

    def conv(v):
        if isinstance(v, _RefDefinition):
            return "%s %d" % (type(v).__name__, v._ref)
        if isinstance(v, _Definition):
            return "%s" % type(v).__name__
        if isinstance(v, (tuple, list)):
            return type(v)(conv(x) for x in v)
        if type(v).__module__.startswith(("otf2", "_otf2")):
            return str(v)
        return v

    def rec(o):
        f = {fd.name: conv(getattr(o, fd.name)) for fd in o._fields}
        return list(f.values())[0] if len(f) == 1 else f

    out = []
    with otf2.reader.open(path + "/traces.otf2") as tr:
        d = tr.definitions
        out.append(("ClockProperties", None, rec(d.clock_properties)))
        for k in vars(d):
            reg = getattr(d, k)
            if k == "clock_properties" or k.startswith("_otf2") or "otf2" in k or not hasattr(reg, "__iter__"):
                continue
            for o in reg:
                out.append((type(o).__name__, getattr(o, "_ref", None), rec(o)))
    return out
