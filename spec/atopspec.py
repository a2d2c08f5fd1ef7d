"""What atoparser's functions have to do, as functions.

The verifier runs these symbolically: the postcondition of a function under contract is "the result, the exception
and the frame are those of the specification function".  The replay runs them natively on concrete inputs.
Positions and widths of fields come from layouts.json (gcc's layout of atop's own C declarations), never from the
ctypes declarations under test.
"""
import ctypes
import gzip
import io
import json
import os
import zlib

from atoparser.structs import atop_1_26, atop_2_3, atop_2_4, atop_2_5, atop_2_6, atop_2_7, atop_2_8, atop_2_9, atop_2_10
from atoparser.structs import atop_2_11, atop_2_12

with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "layouts.json"), encoding="utf-8") as _f:
    LAYOUTS = json.load(_f)

MODULES = {
    "1.26": atop_1_26, "2.3": atop_2_3, "2.4": atop_2_4, "2.5": atop_2_5, "2.6": atop_2_6, "2.7": atop_2_7,
    "2.8": atop_2_8, "2.9": atop_2_9, "2.10": atop_2_10, "2.11": atop_2_11, "2.12": atop_2_12,
}
VERSIONS = list(MODULES)
NEWEST = "2.12"
NUMBERS = {v: (int(v.split(".")[0]), int(v.split(".")[1])) for v in VERSIONS}
HEADERS = {v: m.Header for v, m in MODULES.items()}
VERSION_OF = {m.Header: v for v, m in MODULES.items()}
RECORDS = {v: m.Record for v, m in MODULES.items()}
SSTATS = {v: m.SStat for v, m in MODULES.items()}
TSTATS = {v: m.TStat for v, m in MODULES.items()}
CSTATS = {v: getattr(MODULES[v], "CStat", None) for v in ("2.11", "2.12")}
CHAINERS = {v: getattr(MODULES[v], "CGChainer", None) for v in ("2.11", "2.12")}
for _v in ("2.11", "2.12"):  # 2.12 shares these with 2.11
    CSTATS[_v] = CSTATS[_v] or HEADERS[_v].CStat
    CHAINERS[_v] = CHAINERS[_v] or HEADERS[_v].CGChainer
HAS_CGROUPS = {v: v in ("2.11", "2.12") for v in VERSIONS}

MAGIC = 0xFEEDBEEF
MAX_SAMPLES = 86400
HEADER_SIZE = 480
SIZES = {v: {k: LAYOUTS[v]["structs"][t]["size"] for k, t in LAYOUTS[v]["top"].items()} for v in VERSIONS}


class Require(Exception):
    """The input is outside the precondition."""


# ------------------------------------------------------------------ primitives (the verifier has its own rules for them)
def require(condition):
    """Precondition of the specification."""
    if not condition:
        raise Require()


def locate(version, tag, path):
    """-> (offset, field description) of a dotted path inside a C struct."""
    off = 0
    field = None
    for name in path.split("."):
        field = next(f for f in LAYOUTS[version]["structs"][tag]["fields"] if f["name"] == name)
        off += field["off"]
        tag = field.get("struct")
    return off, field


def field_at(version, top, path):
    return locate(version, LAYOUTS[version]["top"][top], path)


def _native_int(obj, off, size, signed):
    return int.from_bytes(ctypes.string_at(ctypes.addressof(obj) + off, size), "little", signed=signed)


def fld(version, top, obj, path):
    """Value of an integer field of a structure, by the C layout."""
    off, f = field_at(version, top, path)
    return _native_int(obj, off, f["size"], f.get("signed", False))


def bytes_int(data, off, size):
    """Unsigned little endian integer inside a byte string."""
    return int.from_bytes(data[off:off + size], "little")


def zero_filled(cls, data):
    """Structure whose leading bytes are data and the rest zeros."""
    return cls.from_buffer_copy(data + bytes(ctypes.sizeof(cls) - len(data)))


def int_array(count, data):
    """C array of `count` ints holding the leading bytes of data (ValueError if there are too few)."""
    return (ctypes.c_int * count).from_buffer_copy(data)


# ------------------------------------------------------------------ C01 - C03
def number(version):
    """The version field without its top bit."""
    return NUMBERS[version][0] * 256 + NUMBERS[version][1]


def layout_key(aversion):
    """The supported version of this version field, else the newest one."""
    for v in VERSIONS:
        if aversion % 32768 == number(v):
            return v
    return NEWEST


def get_header(raw_file, check_compatibility=True):
    data = raw_file.read(HEADER_SIZE)
    if len(data) < HEADER_SIZE or bytes_int(data, 0, 4) != MAGIC:
        raise ValueError("not an atop log")
    aversion = bytes_int(data, 4, 2)
    key = layout_key(aversion)
    header = HEADERS[key].from_buffer_copy(data)
    if check_compatibility:
        check_header(header)
    return header


LENGTH_FIELDS = {
    v: [("rawheadlen", "Header"), ("rawreclen", "Record"), ("sstatlen", "SStat"),
        ("pstatlen" if v == "1.26" else "tstatlen", "TStat")] + ([("cstatlen", "CStat")] if HAS_CGROUPS[v] else [])
    for v in VERSIONS
}


def lengths_match(version, header):
    """All announced lengths equal the sizes of the structures."""
    return all(fld(version, "Header", header, name) == SIZES[version][top] for name, top in LENGTH_FIELDS[version])


def check_header(header):
    if not lengths_match(VERSION_OF[type(header)], header):
        raise ValueError("incompatible")


def major_version(header):
    return fld(VERSION_OF[type(header)], "Header", header, "aversion") // 256 % 128


def minor_version(header):
    return fld(VERSION_OF[type(header)], "Header", header, "aversion") % 256


def semantic_version(header):
    return f"{major_version(header)}.{minor_version(header)}"


# ------------------------------------------------------------------ C04 - C07
def get_record(raw_file, header):
    cls = RECORDS[VERSION_OF[type(header)]]
    return zero_filled(cls, raw_file.read(ctypes.sizeof(cls)))


def get_sstat(raw_file, header, record):
    version = VERSION_OF[type(header)]
    data = zlib.decompress(raw_file.read(fld(version, "Record", record, "scomplen")))
    return SSTATS[version].from_buffer_copy(data)


def get_tstat(raw_file, header, record):
    version = VERSION_OF[type(header)]
    data = zlib.decompress(raw_file.read(fld(version, "Record", record, "pcomplen")))
    count = fld(version, "Record", record, "nlist" if version == "1.26" else "ndeviat")
    length = fld(version, "Header", header, "pstatlen" if version == "1.26" else "tstatlen")
    require(length >= SIZES[version]["TStat"])
    tasks = []
    for i in range(count):
        tasks.append(TSTATS[version].from_buffer_copy(data[i * length:i * length + length]))
    return tasks


def get_cstat(raw_file, header, record):
    version = VERSION_OF[type(header)]
    stats = zlib.decompress(raw_file.read(fld(version, "Record", record, "ccomplen")))
    ids = zlib.decompress(raw_file.read(fld(version, "Record", record, "icomplen")))
    count = fld(version, "Record", record, "ncgroups")
    length = fld(version, "Header", header, "cstatlen")
    require(length >= SIZES[version]["CStat"])
    cgroups = []
    start = 0
    first_id = 0
    for _ in range(count):
        cstat = CSTATS[version].from_buffer_copy(stats[start:start + length])
        own = fld(version, "CStat", cstat, "gen.structlen")
        nprocs = fld(version, "CStat", cstat, "gen.nprocs")
        require(own >= 0 and nprocs >= 0)
        pids = int_array(nprocs, ids[first_id:first_id + 4 * nprocs])
        cgroups.append(CHAINERS[version](cstat, pids))
        start = start + own
        first_id = first_id + 4 * nprocs
    return cgroups


# ------------------------------------------------------------------ C08, C09
def generate_statistics(raw_file, header=None, raise_on_truncation=True, max_samples=MAX_SAMPLES):
    if header is None:
        header = get_header(raw_file)
    version = VERSION_OF[type(header)]
    for _ in range(max_samples):
        record = get_record(raw_file, header)
        if fld(version, "Record", record, "scomplen") == 0:
            return
        try:
            sstat = get_sstat(raw_file, header, record)
            tasks = get_tstat(raw_file, header, record)
            cgroups = get_cstat(raw_file, header, record) if HAS_CGROUPS[version] else []
        except zlib.error:
            if raise_on_truncation:
                raise
            return
        yield record, sstat, tasks, cgroups


def prefix_is_damaged(whole, size, count):
    """If the block at whole's position does not fit below `size`, what is left of it does not decompress."""
    at = whole.tell()
    if at + count <= size:
        return True
    part = whole.read(max(size - at, 0))
    whole.seek(at)
    try:
        zlib.decompress(part)
    except zlib.error:
        return True
    return False


def file_size(f):
    at = f.tell()
    f.seek(0, 2)
    size = f.tell()
    f.seek(at)
    return size


def truncated_statistics(cut, whole, header, raise_on_truncation=True, max_samples=MAX_SAMPLES):
    """Iterating over `cut`, told by the complete log `whole` it is a prefix of (both at the same position)."""
    version = VERSION_OF[type(header)]
    size = file_size(cut)
    for _ in range(max_samples):
        cut.seek(whole.tell())
        record = get_record(whole, header)
        if fld(version, "Record", record, "scomplen") == 0:
            return
        require(prefix_is_damaged(whole, size, fld(version, "Record", record, "scomplen")))
        try:
            sstat = get_sstat(whole, header, record)
            require(prefix_is_damaged(whole, size, fld(version, "Record", record, "pcomplen")))
            tasks = get_tstat(whole, header, record)
            cgroups = []
            if HAS_CGROUPS[version]:
                require(prefix_is_damaged(whole, size, fld(version, "Record", record, "ccomplen")))
                at = whole.tell()
                whole.seek(at + fld(version, "Record", record, "ccomplen"))
                require(prefix_is_damaged(whole, size, fld(version, "Record", record, "icomplen")))
                whole.seek(at)
                cgroups = get_cstat(whole, header, record)
        except (zlib.error, ValueError):
            require(False)
        if whole.tell() > size:
            left = get_record(cut, header)
            if fld(version, "Record", left, "scomplen") != 0 and raise_on_truncation:
                raise zlib.error("cut")
            return
        yield record, sstat, tasks, cgroups


# ------------------------------------------------------------------ C10 - C12
COUNTERS = {"cpu": "nrcpu", "numa": "nrnuma", "dsk": "ndsk", "mdd": "nmdd", "lvm": "nlvm", "intf": "nrintf", "nfsmnt": "nrmounts",
            "cont": "nrcontainer", "gpu": "nrgpus", "ifb": "nrports", "perllc": "nrllcs"}


def fields(version, tag):
    return LAYOUTS[version]["structs"][tag]["fields"]


def counter_of(version, tag, f):
    """The counter of an array of structures, if it has one."""
    if f["kind"] == "struct" and "count" in f and f["name"] in COUNTERS:
        return COUNTERS[f["name"]]
    return None


def number_at(obj, off, f):
    """The int or float stored at an offset of a structure."""
    if f["kind"] == "float":
        return (ctypes.c_float if f["size"] == 4 else ctypes.c_double).from_buffer_copy(ctypes.string_at(ctypes.addressof(obj) + off, f["size"])).value
    return _native_int(obj, off, f["size"], f["signed"])


def bytes_at(obj, off, f):
    """The characters stored at an offset of a structure: up to the first NUL of an array, or the single one."""
    data = ctypes.string_at(ctypes.addressof(obj) + off, f.get("count", 1))
    return data.split(b"\0")[0] if "count" in f else data


def text_at(obj, off, f):
    return bytes_at(obj, off, f).decode("utf-8", "ignore")


def struct_at(version, tag, obj, off):
    """Dictionary of the structure stored at an offset of another one."""
    return to_dict(version, tag, obj, off)


def convert(version, obj, off, f):
    if f["kind"] == "struct":
        return struct_at(version, f["struct"], obj, off)
    return number_at(obj, off, f)


def to_dict(version, tag, obj, at=0):
    out = {}
    for f in fields(version, tag):
        name = f["name"]
        off = at + f["off"]
        if "future" in name:
            continue
        if f["kind"] == "char":
            out[name] = text_at(obj, off, f)
        elif "count" in f:
            n = f["count"]
            counter = counter_of(version, tag, f)
            if counter is not None:
                c, cf = locate(version, tag, counter)
                used = number_at(obj, at + c, cf)
                require(used >= 0)
                n = min(n, used)
            out[name] = [convert(version, obj, off + i * f["size"], f) for i in range(n)]
        else:
            out[name] = convert(version, obj, off, f)
    return out


def chainer_to_dict(version, chainer):
    return {"cstat": struct_at(version, LAYOUTS[version]["top"]["CStat"], chainer.cstat, 0), "proclist": list(chainer.proclist)}


# ------------------------------------------------------------------ C13, C14 (atop 1.26 views)
def COMMON(*rest):
    return (("timestamp", "r", "curtime"), ("interval", "r", "interval")) + rest


def _disk():
    return COMMON(("name", "text", "name"), ("io_ms", "d", "io_ms"), ("reads", "d", "nread"), ("read_sectors", "d", "nrsect"),
                  ("writes", "d", "nwrite"), ("write_sectors", "d", "nwsect"))


# view -> (path of the array inside sstat or None, C structure of an element, members of a row)
# sources: h header, r record, s system statistics, d array element, i index, text characters of the element, + sum, duplex
SYSTEM_VIEWS = {
    "cpu": ("cpu.cpu", "percpu", COMMON(
        ("ticks", "h", "hertz"), ("proc", "i", None), ("system", "d", "stime"), ("user", "d", "utime"), ("niced", "d", "ntime"), ("idle", "d", "itime"),
        ("wait", "d", "wtime"), ("irq", "d", "Itime"), ("softirq", "d", "Stime"), ("steal", "d", "steal"), ("guest", "d", "guest"))),
    "CPL": (None, None, COMMON(
        ("procs", "s", "cpu.nrcpu"), ("load_1", "s", "cpu.lavg1"), ("load_5", "s", "cpu.lavg5"), ("load_15", "s", "cpu.lavg15"),
        ("context_switches", "s", "cpu.csw"), ("interrupts", "s", "cpu.devint"))),
    "CPU": (None, None, COMMON(
        ("ticks", "h", "hertz"), ("procs", "s", "cpu.nrcpu"), ("system", "s", "cpu.all.stime"), ("user", "s", "cpu.all.utime"),
        ("niced", "s", "cpu.all.ntime"), ("idle", "s", "cpu.all.itime"), ("wait", "s", "cpu.all.wtime"), ("irq", "s", "cpu.all.Itime"),
        ("softirq", "s", "cpu.all.Stime"), ("steal", "s", "cpu.all.steal"), ("guest", "s", "cpu.all.guest"))),
    "DSK": ("dsk.dsk", "perdsk", _disk()),
    "LVM": ("dsk.lvm", "perdsk", _disk()),
    "MDD": ("dsk.mdd", "perdsk", _disk()),
    "MEM": (None, None, COMMON(
        ("page_size", "h", "pagesize"), ("phys_mem", "s", "mem.physmem"), ("free_mem", "s", "mem.freemem"), ("page_cache", "s", "mem.cachemem"),
        ("buffer_cache", "s", "mem.buffermem"), ("slab", "s", "mem.slabmem"), ("dirty_pages", "s", "mem.cachedrt"))),
    "NETL": ("intf.intf", "perintf", COMMON(
        ("name", "text", "name"), ("pkt_received", "d", "rpack"), ("byte_received", "d", "rbyte"), ("pkt_transmitted", "d", "spack"),
        ("bytes_transmitted", "d", "sbyte"), ("speed", "d", "speed"), ("duplex", "byte", "duplex"))),
    "NETU": (None, None, COMMON(
        ("name", "=", "upper"), ("tcp_pkt_received", "s", "net.tcp.InSegs"), ("tcp_pkt_transmitted", "s", "net.tcp.OutSegs"),
        ("udp_pkt_received", "+", ("net.udpv4.InDatagrams", "net.udpv6.Udp6InDatagrams")),
        ("udp_pkt_transmitted", "+", ("net.udpv4.OutDatagrams", "net.udpv6.Udp6OutDatagrams")),
        ("ip_pkt_received", "+", ("net.ipv4.InReceives", "net.ipv6.Ip6InReceives")),
        ("ip_pkt_transmitted", "+", ("net.ipv4.OutRequests", "net.ipv6.Ip6OutRequests")),
        ("ip_pkt_delivered", "+", ("net.ipv4.InDelivers", "net.ipv6.Ip6InDelivers")),
        ("ip_pkt_forwarded", "+", ("net.ipv4.ForwDatagrams", "net.ipv6.Ip6OutForwDatagrams")))),
    "PAG": (None, None, COMMON(
        ("page_size", "h", "pagesize"), ("page_scans", "s", "mem.pgscans"), ("alloc_stalls", "s", "mem.allocstall"),
        ("swapins", "s", "mem.swins"), ("swapouts", "s", "mem.swouts"))),
    "SWP": (None, None, COMMON(
        ("page_size", "h", "pagesize"), ("swap", "s", "mem.totswap"), ("free_swap", "s", "mem.freeswap"),
        ("committed_space", "s", "mem.committed"), ("committed_limit", "s", "mem.commitlim"))),
}

_TASK = (("pid", "t", "gen.pid"), ("name", "text", "gen.name"), ("state", "text", "gen.state"))
TASK_VIEWS = {
    "PRC": COMMON(*_TASK, ("ticks", "h", "hertz"), ("user_consumption", "t", "cpu.utime"), ("system_consumption", "t", "cpu.stime"),
                  ("nice", "t", "cpu.nice"), ("priority", "t", "cpu.prio"), ("priority_realtime", "t", "cpu.rtprio"), ("policy", "t", "cpu.policy"),
                  ("cpu", "t", "cpu.curcpu"), ("sleep", "t", "cpu.sleepavg")),
    "PRD": COMMON(*_TASK, ("kernel_patch", "flag", 2), ("standard_io", "flag", 4), ("reads", "t", "dsk.rio"), ("read_sectors", "t", "dsk.rsz"),
                  ("writes", "t", "dsk.wio"), ("written_sectors", "t", "dsk.wsz"), ("cancelled_sector_writes", "t", "dsk.cwsz")),
    "PRG": COMMON(*_TASK, ("real_uid", "t", "gen.ruid"), ("real_gid", "t", "gen.rgid"), ("tgid", "t", "gen.pid"), ("threads", "t", "gen.nthr"),
                  ("exit_code", "t", "gen.excode"), ("start_time", "t", "gen.btime"), ("cmd", "text", "gen.cmdline"), ("ppid", "t", "gen.ppid"),
                  ("running_threads", "t", "gen.nthrrun"), ("sleeping_threads", "t", "gen.nthrslpi"), ("dead_threads", "t", "gen.nthrslpu"),
                  ("effective_uid", "t", "gen.euid"), ("effective_gid", "t", "gen.egid"), ("saved_uid", "t", "gen.suid"), ("saved_gid", "t", "gen.sgid"),
                  ("filesystem_uid", "t", "gen.fsuid"), ("filesystem_gid", "t", "gen.fsgid"), ("elapsed_time", "t", "gen.elaps")),
    "PRM": COMMON(*_TASK, ("page", "h", "pagesize"), ("vsize", "kib", "mem.vmem"), ("rsize", "kib", "mem.rmem"), ("ssize", "kib", "mem.shtext"),
                  ("vgrowth", "kib", "mem.vgrow"), ("rgrowth", "kib", "mem.rgrow"), ("minor_faults", "t", "mem.minflt"), ("major_faults", "t", "mem.majflt")),
    "PRN": COMMON(*_TASK, ("kernel_patch", "flag", 2), ("tcp_transmitted", "t", "net.tcpsnd"), ("tcp_transmitted_size", "t", "net.tcpssz"),
                  ("tcp_received", "t", "net.tcprcv"), ("tcp_received_size", "t", "net.tcprsz"), ("udp_transmitted", "t", "net.udpsnd"),
                  ("udp_transmitted_size", "t", "net.udpssz"), ("udp_received", "t", "net.udprcv"), ("udp_received_size", "t", "net.udprsz"),
                  ("raw_transmitted", "t", "net.rawsnd"), ("raw_received", "t", "net.rawrcv")),
}
VIEW_VERSION = "1.26"
BYTE = {"kind": "int", "size": 1, "signed": False}


def member(top, obj, path):
    """Number inside one of the 1.26 top level structures."""
    off, f = field_at(VIEW_VERSION, top, path)
    return number_at(obj, off, f)


def row(members, header, record, sstat, holder, tag, at, index):
    """One row of a view; `holder` at offset `at` is the device or task the row is about."""
    out = {}
    for key, source, path in members:
        if source == "h":
            out[key] = member("Header", header, path)
        elif source == "r":
            out[key] = member("Record", record, path)
        elif source == "s":
            out[key] = member("SStat", sstat, path)
        elif source == "+":
            out[key] = member("SStat", sstat, path[0]) + member("SStat", sstat, path[1])
        elif source == "=":
            out[key] = path
        elif source == "i":
            out[key] = index
        elif source == "flag":
            out[key] = "y" if member("Header", header, "supportflags") & path else "n"
        else:
            off, f = locate(VIEW_VERSION, tag, path)
            if source == "text":
                out[key] = text_at(holder, at + off, f)
            elif source == "byte":
                out[key] = number_at(holder, at + off, BYTE)
            elif source == "kib":
                out[key] = number_at(holder, at + off, f) * 1024
            else:
                out[key] = number_at(holder, at + off, f)
    return out


def view(name, header, record, sstat, tstats):
    """The rows of a view."""
    if name in TASK_VIEWS:
        tag = LAYOUTS[VIEW_VERSION]["top"]["TStat"]
        for task in tstats:
            yield row(TASK_VIEWS[name], header, record, sstat, task, tag, 0, 0)
        return
    path, tag, members = SYSTEM_VIEWS[name]
    if path is None:
        yield row(members, header, record, sstat, None, None, 0, 0)
        return
    start, array = field_at(VIEW_VERSION, "SStat", path)
    capacity = array["count"]
    if name == "cpu":
        used = member("SStat", sstat, "cpu.nrcpu")
        require(used >= 0)
        capacity = min(capacity, used)
    for i in range(capacity):
        at = start + i * array["size"]
        if name != "cpu":
            off, f = locate(VIEW_VERSION, tag, "name")
            if not bytes_at(sstat, at + off, f):
                return
        yield row(members, header, record, sstat, sstat, tag, at, i)


# ------------------------------------------------------------------ C15 - C17 (the command)
GZIP_MAGIC = b"\x1f\x8b"
VIEW_NAMES = tuple(n for n in list(SYSTEM_VIEWS) + list(TASK_VIEWS) if n != "PRD")  # PRD is not offered by the command
PRINTED = []  # what emit() was given, natively


def open_log(path):
    """The log a path holds: gzip files by what they decompress to."""
    with open(path, "rb") as f:
        data = f.read()
    if data[:2] == GZIP_MAGIC:
        data = gzip.decompress(data)
    return io.BytesIO(data)


def emit(document, pretty):
    """One JSON document on standard output."""
    PRINTED.append((document, bool(pretty)))


def refusal(version):
    """Some text naming the version and saying that views are not supported."""
    return f"Atop version {version} does not support parseables"


def parse_file(file, parseables=None, pretty_print=True, show_tstats=False, show_cstats=False):
    f = open_log(file)
    header = get_header(f)
    version = VERSION_OF[type(header)]
    out = []
    if parseables:
        if major_version(header) * 256 + minor_version(header) != number(VIEW_VERSION):
            out.append({"error": refusal(semantic_version(header)), "file": file})
        else:
            for record, sstat, tasks, _ in generate_statistics(f, header, False):
                for name in parseables:
                    for r in view(name, header, record, sstat, tasks):
                        r["parseable"] = name
                        out.append(r)
    else:
        for record, sstat, tasks, cgroups in generate_statistics(f, header, False):
            sample = {
                "header": struct_at(version, LAYOUTS[version]["top"]["Header"], header, 0),
                "record": struct_at(version, LAYOUTS[version]["top"]["Record"], record, 0),
                "sstat": struct_at(version, LAYOUTS[version]["top"]["SStat"], sstat, 0),
            }
            if show_tstats:
                sample["tstat"] = [struct_at(version, LAYOUTS[version]["top"]["TStat"], t, 0) for t in tasks]
            if show_cstats:
                sample["cgroup"] = [chainer_to_dict(version, c) for c in cgroups]
            out.append(sample)
    emit(out, pretty_print)


def operands(name):
    """Positional arguments of the command line (the verifier's rule: any list of at least one)."""
    raise NotImplementedError


def option_values(*names):
    """Values of an option that takes any number of them, None if it is not given."""
    raise NotImplementedError


def given(*names):
    """Whether one of these flags is on the command line."""
    raise NotImplementedError


def main():
    files = operands("files")
    views = option_values("-P", "--parseables")
    pretty, tstats, cstats = given("-p", "--pretty-print"), given("--tstats"), given("--cstats")
    for file in files:
        parse_file(file, views, pretty, tstats, cstats)


# ------------------------------------------------------------------ what reading leaves alone
def nothing(*args, **kwargs):
    """Frame of every function: the arguments stay as they are."""
    return None
