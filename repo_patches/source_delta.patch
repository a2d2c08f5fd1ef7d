From 059ff0477fa14766a699d13a1f14189f2be50dbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:59 +0000
Subject: [PATCH 1/5] fix: reject truncated headers with ValueError

A file that ended inside the header was accepted with the missing bytes zero
filled, as long as the leading length fields were present.
---
 atoparser/utils.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/atoparser/utils.py b/atoparser/utils.py
index 5b6f47c..0c422b5 100644
--- a/atoparser/utils.py
+++ b/atoparser/utils.py
@@ -145,11 +145,13 @@ def get_header(raw_file: io.BytesIO, check_compatibility: bool = True) -> Header
     # Read the header directly into the struct, there is no padding to consume or add.
     # Use default Header as the baseline in order to check the version. It can be transferred without re-reading.
     header = _HEADER_BY_VERSION[_DEFAULT_VERSION]()
-    raw_file.readinto(header)
+    bytes_read = raw_file.readinto(header)
 
     if header.magic != MAGIC:
         msg = f"File does not contain raw atop output (wrong magic number): {hex(header.magic)}"
         raise ValueError(msg)
+    if bytes_read < ctypes.sizeof(header):
+        raise ValueError(f"File does not contain a complete atop header: {bytes_read} of {ctypes.sizeof(header)} bytes")
 
     header_version = header.semantic_version
     if header_version != _DEFAULT_VERSION and header_version in _HEADER_BY_VERSION:
-- 
2.43.0


From 22491e7b7b05f32636065978819ab2799238e8cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:02 +0000
Subject: [PATCH 2/5] fix: check the lengths of the layout for unknown versions

Unknown versions use the latest layout, but versions such as 2.2 or 3.0 were
checked for fields that the latest layout does not have (AttributeError).
---
 atoparser/structs/shared.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/atoparser/structs/shared.py b/atoparser/structs/shared.py
index 91dda02..6cbd855 100644
--- a/atoparser/structs/shared.py
+++ b/atoparser/structs/shared.py
@@ -49,11 +49,12 @@ class HeaderMixin:
             ("Record", self.rawreclen, ctypes.sizeof(self.Record)),
             ("SStat", self.sstatlen, ctypes.sizeof(self.SStat)),
         ]
-        if self.major_version >= 2 and self.minor_version >= 3:
+        # Check the lengths the layout has, instead of the version, since unknown versions fall back to the latest layout.
+        if hasattr(self, "tstatlen"):
             sizes.append(("TStat", self.tstatlen, ctypes.sizeof(self.TStat)))
         else:
             sizes.append(("PStat", self.pstatlen, ctypes.sizeof(self.TStat)))
-        if self.major_version >= 2 and self.minor_version >= 11:
+        if self.CStat is not None:
             sizes.append(("CStat", self.cstatlen, ctypes.sizeof(self.CStat)))
         if any(size[1] != size[2] for size in sizes):
             raise ValueError(
-- 
2.43.0


From 15847a174b1fcc57a3d579ce41fdeb0ebc61a4db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:06 +0000
Subject: [PATCH 3/5] fix: read unknown versions with the latest layout
 throughout

Versions such as 3.0 fall back to the latest layout, but the task length and
the presence of cgroups were still decided by comparing version numbers.
---
 atoparser/utils.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/atoparser/utils.py b/atoparser/utils.py
index 0c422b5..8b6e9e8 100644
--- a/atoparser/utils.py
+++ b/atoparser/utils.py
@@ -101,9 +101,6 @@ def generate_statistics(
         header = get_header(raw_file)
 
     try:
-        header_version = header.semantic_version
-        major, minor = header_version.split(".")[:2]
-        major, minor = int(major), int(minor)
         for _ in range(max_samples):
             # Read the repeating structured information until the end of the file.
             # Atop log files consist of the following after the header, repeated until the end:
@@ -117,7 +114,8 @@ def generate_statistics(
                 break
             sstat = get_sstat(raw_file, header, record)
             tstats = get_tstat(raw_file, header, record)
-            if major >= 2 and minor >= 11:
+            # Check the layout, instead of the version, since unknown versions fall back to the latest layout.
+            if header.CStat is not None:
                 cgroups = get_cstat(raw_file, header, record)
             else:
                 cgroups = []
@@ -236,7 +234,8 @@ def get_tstat(
     decompressed = zlib.decompress(buffer)
 
     record_count = record.nlist if isinstance(record, atop_1_26.Record) else record.ndeviat
-    tstatlen = header.tstatlen if header.major_version >= 2 and header.minor_version >= 3 else header.pstatlen
+    # Check the layout, instead of the version, since unknown versions fall back to the latest layout.
+    tstatlen = header.tstatlen if hasattr(header, "tstatlen") else header.pstatlen
     tstats = []
     for index in range(record_count):
         # Reconstruct one TStat struct for every possible byte chunk, incrementing the offset each pass. For example:
-- 
2.43.0


From cfab4cdc2a6617aaf6508954e3b86a6fd376a414 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:09 +0000
Subject: [PATCH 4/5] fix: do not fail on process and device names that are not
 valid UTF-8

Matches struct_to_dict, which already ignores invalid bytes.
---
 atoparser/parsers/atop_1_26.py | 30 +++++++++++++++---------------
 1 file changed, 15 insertions(+), 15 deletions(-)

diff --git a/atoparser/parsers/atop_1_26.py b/atoparser/parsers/atop_1_26.py
index ef8f33b..c062050 100644
--- a/atoparser/parsers/atop_1_26.py
+++ b/atoparser/parsers/atop_1_26.py
@@ -96,7 +96,7 @@ def parse_DSK(
         values = {
             "timestamp": record.curtime,
             "interval": record.interval,
-            "name": disk.name.decode(),
+            "name": disk.name.decode(errors="ignore"),
             "io_ms": disk.io_ms,
             "reads": disk.nread,
             "read_sectors": disk.nrsect,
@@ -120,7 +120,7 @@ def parse_LVM(
         values = {
             "timestamp": record.curtime,
             "interval": record.interval,
-            "name": lvm.name.decode(),
+            "name": lvm.name.decode(errors="ignore"),
             "io_ms": lvm.io_ms,
             "reads": lvm.nread,
             "read_sectors": lvm.nrsect,
@@ -144,7 +144,7 @@ def parse_MDD(
         values = {
             "timestamp": record.curtime,
             "interval": record.interval,
-            "name": mdd.name.decode(),
+            "name": mdd.name.decode(errors="ignore"),
             "io_ms": mdd.io_ms,
             "reads": mdd.nread,
             "read_sectors": mdd.nrsect,
@@ -189,7 +189,7 @@ def parse_NETL(
         values = {
             "timestamp": record.curtime,
             "interval": record.interval,
-            "name": interface.name.decode(),
+            "name": interface.name.decode(errors="ignore"),
             "pkt_received": interface.rpack,
             "byte_received": interface.rbyte,
             "pkt_transmitted": interface.spack,
@@ -254,8 +254,8 @@ def parse_PRC(
             "timestamp": record.curtime,
             "interval": record.interval,
             "pid": stat.gen.pid,
-            "name": stat.gen.name.decode(),
-            "state": stat.gen.state.decode(),
+            "name": stat.gen.name.decode(errors="ignore"),
+            "state": stat.gen.state.decode(errors="ignore"),
             "ticks": header.hertz,
             "user_consumption": stat.cpu.utime,
             "system_consumption": stat.cpu.stime,
@@ -281,8 +281,8 @@ def parse_PRD(
             "timestamp": record.curtime,
             "interval": record.interval,
             "pid": stat.gen.pid,
-            "name": stat.gen.name.decode(),
-            "state": stat.gen.state.decode(),
+            "name": stat.gen.name.decode(errors="ignore"),
+            "state": stat.gen.state.decode(errors="ignore"),
             "kernel_patch": "y" if header.supportflags & atop_1_26.PATCHSTAT else "n",
             "standard_io": "y" if header.supportflags & atop_1_26.IOSTAT else "n",
             "reads": stat.dsk.rio,
@@ -306,15 +306,15 @@ def parse_PRG(
             "timestamp": record.curtime,
             "interval": record.interval,
             "pid": stat.gen.pid,
-            "name": stat.gen.name.decode(),
-            "state": stat.gen.state.decode(),
+            "name": stat.gen.name.decode(errors="ignore"),
+            "state": stat.gen.state.decode(errors="ignore"),
             "real_uid": stat.gen.ruid,
             "real_gid": stat.gen.rgid,
             "tgid": stat.gen.pid,  # This is a duplicate of pid per atop documentation.
             "threads": stat.gen.nthr,
             "exit_code": stat.gen.excode,
             "start_time": stat.gen.btime,
-            "cmd": stat.gen.cmdline.decode(),
+            "cmd": stat.gen.cmdline.decode(errors="ignore"),
             "ppid": stat.gen.ppid,
             "running_threads": stat.gen.nthrrun,
             "sleeping_threads": stat.gen.nthrslpi,
@@ -342,8 +342,8 @@ def parse_PRM(
             "timestamp": record.curtime,
             "interval": record.interval,
             "pid": stat.gen.pid,
-            "name": stat.gen.name.decode(),
-            "state": stat.gen.state.decode(),
+            "name": stat.gen.name.decode(errors="ignore"),
+            "state": stat.gen.state.decode(errors="ignore"),
             "page": header.pagesize,
             "vsize": stat.mem.vmem * 1024,
             "rsize": stat.mem.rmem * 1024,
@@ -368,8 +368,8 @@ def parse_PRN(
             "timestamp": record.curtime,
             "interval": record.interval,
             "pid": stat.gen.pid,
-            "name": stat.gen.name.decode(),
-            "state": stat.gen.state.decode(),
+            "name": stat.gen.name.decode(errors="ignore"),
+            "state": stat.gen.state.decode(errors="ignore"),
             "kernel_patch": "y" if header.supportflags & atop_1_26.PATCHSTAT else "n",
             "tcp_transmitted": stat.net.tcpsnd,
             "tcp_transmitted_size": stat.net.tcpssz,
-- 
2.43.0


From 9f708e9e237bf5e8cb752ff8fc0f06c1454077f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:12 +0000
Subject: [PATCH 5/5] fix: detect gzip compressed logs by content instead of by
 name

A plain log in a path containing '.gz', and a compressed log without it in its
name, could not be read.
---
 atoparser/reader.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/atoparser/reader.py b/atoparser/reader.py
index 80c3e0d..85f0299 100755
--- a/atoparser/reader.py
+++ b/atoparser/reader.py
@@ -9,6 +9,9 @@ import json
 import atoparser
 from atoparser.parsers import atop_1_26
 
+# Leading bytes of every gzip compressed file.
+GZIP_MAGIC = b"\x1f\x8b"
+
 PARSEABLES = ["cpu", "CPL", "CPU", "DSK", "LVM", "MDD", "MEM", "NETL", "NETU", "PAG", "PRC", "PRG", "PRM", "PRN", "SWP"]
 PARSEABLE_MAP = {
     "1.26": {parseable: getattr(atop_1_26, f"parse_{parseable}") for parseable in PARSEABLES},
@@ -76,8 +79,10 @@ def parse_file(  # pylint: disable=too-many-locals
         show_cstats: Wheter to include CGroup/CStats in output
     """
     samples = []
-    opener = open if ".gz" not in file else gzip.open
-    with opener(file, "rb") as raw_file:
+    with open(file, "rb") as plain_file:
+        # Detect compression by content, instead of by name, since paths do not reliably describe how a log was stored.
+        compressed = plain_file.peek(len(GZIP_MAGIC)).startswith(GZIP_MAGIC)
+        raw_file = gzip.open(plain_file, "rb") if compressed else plain_file
         header = atoparser.get_header(raw_file)
         if parseables and header.semantic_version not in PARSEABLE_MAP:
             samples.append(
-- 
2.43.0

