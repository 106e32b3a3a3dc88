From ec2091c1eef8dd257f0c0608109b80624aa6fce1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:17 +0000
Subject: [PATCH 01/82] fix: deliver lazily awaited data to event grains and
 accept absent data in numpy grains

Awaiting an event grain stored the fetched bytes in _data, where they were
never looked at, and setting its length failed, so event grains could not be
decoded lazily at all. Numpy grains failed when the awaitable gave None, which
is what an unused deferred load gives when its decoder is closed.
---
 mediagrains/grains/EventGrain.py             |  6 ++++++
 mediagrains/grains/Grain.py                  | 16 ++++++++++------
 mediagrains/numpy/numpy_grains/AudioGrain.py | 11 ++++-------
 mediagrains/numpy/numpy_grains/VideoGrain.py | 11 ++++-------
 4 files changed, 24 insertions(+), 20 deletions(-)

diff --git a/mediagrains/grains/EventGrain.py b/mediagrains/grains/EventGrain.py
index d90ce74..7b8ebca 100644
--- a/mediagrains/grains/EventGrain.py
+++ b/mediagrains/grains/EventGrain.py
@@ -204,6 +204,12 @@ append(path, pre=None, post=None)
                 d['post'] = datum['post']
             self.meta['grain']['event_payload']['data'].append(d)
 
+    def _store_fetched_data(self, value: Optional[GrainDataType]) -> None:
+        # The payload of an event grain is kept in the metadata and not in self._data
+        self._data_fetcher_coroutine = None
+        if value is not None:
+            self.data = bytes(value)
+
     def __repr__(self) -> str:
         return "EventGrain({!r})".format(self.meta)
 
diff --git a/mediagrains/grains/Grain.py b/mediagrains/grains/Grain.py
index b438d44..805ef28 100644
--- a/mediagrains/grains/Grain.py
+++ b/mediagrains/grains/Grain.py
@@ -384,10 +384,14 @@ media_rate
     def __await__(self) -> Generator[Any, None, Optional[GrainDataType]]:
         async def __inner():
             if self._data is None and self._data_fetcher_coroutine is not None:
-                self._data = await self._data_fetcher_coroutine
-            return self._data
+                self._store_fetched_data(await self._data_fetcher_coroutine)
+            return self.data
         return __inner().__await__()
 
+    def _store_fetched_data(self, value: Optional[GrainDataType]) -> None:
+        """Store the data element that was obtained by awaiting self._data_fetcher_coroutine"""
+        self._data = value
+
     async def __aenter__(self):
         await self
         return self
@@ -680,18 +684,18 @@ media_rate
 
     @property
     def length(self) -> int:
-        if hasattr(self.data, "__len__"):
+        if self._data is None and self._data_fetcher_coroutine is not None:
+            return self._data_fetcher_length
+        elif hasattr(self.data, "__len__"):
             return len(cast(Sized, self.data))
         elif hasattr(self.data, "__bytes__"):
             return len(bytes(cast(SupportsBytes, self.data)))
-        elif self.data is None and self._data_fetcher_coroutine is not None:
-            return self._data_fetcher_length
         else:
             return 0
 
     @length.setter
     def length(self, L: int) -> None:
-        if self.data is None and self._data_fetcher_coroutine is not None:
+        if self._data is None and self._data_fetcher_coroutine is not None:
             self._data_fetcher_length = L
         else:
             raise AttributeError
diff --git a/mediagrains/numpy/numpy_grains/AudioGrain.py b/mediagrains/numpy/numpy_grains/AudioGrain.py
index 05f9082..ce636a8 100644
--- a/mediagrains/numpy/numpy_grains/AudioGrain.py
+++ b/mediagrains/numpy/numpy_grains/AudioGrain.py
@@ -1,4 +1,4 @@
-from typing import Optional, Awaitable, cast, Generator, Any, List
+from typing import Optional, Awaitable, cast, List
 from ...typing import AudioGrainMetadataDict, GrainDataType, GrainDataParameterType
 from inspect import isawaitable
 
@@ -202,12 +202,9 @@ class AudioGrain (bytesgrain.AudioGrain):
         else:
             return "{}({!r},< numpy data of length {} >)".format(self._factory, self.meta, len(self.data))
 
-    def __await__(self) -> Generator[Any, None, np.ndarray]:
-        async def __inner():
-            if self._data is None and self._data_fetcher_coroutine is not None:
-                self.data = await self._data_fetcher_coroutine
-            return self.data
-        return __inner().__await__()
+    def _store_fetched_data(self, value: Optional[GrainDataType]) -> None:
+        if value is not None:
+            self.data = value
 
     async def __aenter__(self) -> "AudioGrain":
         await self
diff --git a/mediagrains/numpy/numpy_grains/VideoGrain.py b/mediagrains/numpy/numpy_grains/VideoGrain.py
index 99be2a0..998432b 100644
--- a/mediagrains/numpy/numpy_grains/VideoGrain.py
+++ b/mediagrains/numpy/numpy_grains/VideoGrain.py
@@ -11,7 +11,7 @@ import uuid
 import numpy as np
 from numpy.lib.stride_tricks import as_strided
 
-from typing import Callable, Dict, Tuple, Optional, Awaitable, cast, Generator, Any
+from typing import Callable, Dict, Tuple, Optional, Awaitable, cast
 from ...typing import VideoGrainMetadataDict, GrainDataType, GrainDataParameterType
 
 from inspect import isawaitable
@@ -314,12 +314,9 @@ class VideoGrain (bytesgrain.VideoGrain):
         else:
             return "{}({!r},< numpy data of length {} >)".format(self._factory, self.meta, len(self.data))
 
-    def __await__(self) -> Generator[Any, None, np.ndarray]:
-        async def __inner():
-            if self._data is None and self._data_fetcher_coroutine is not None:
-                self.data = await self._data_fetcher_coroutine
-            return self.data
-        return __inner().__await__()
+    def _store_fetched_data(self, value: Optional[GrainDataType]) -> None:
+        if value is not None:
+            self.data = value
 
     async def __aenter__(self) -> "VideoGrain":
         await self
-- 
2.43.0


From 7c7f664713793f90a15f31f64d4e6956e8cd4401 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:25 +0000
Subject: [PATCH 02/82] fix: let several tasks await the same grain

The second task awaiting a grain whose data was still being fetched got a
RuntimeError, and cancelling the first one lost the data for good.
---
 mediagrains/grains/Grain.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/mediagrains/grains/Grain.py b/mediagrains/grains/Grain.py
index 805ef28..ace048a 100644
--- a/mediagrains/grains/Grain.py
+++ b/mediagrains/grains/Grain.py
@@ -1,3 +1,4 @@
+from asyncio import ensure_future, shield
 from enum import IntEnum
 from uuid import UUID
 from mediatimestamp.immutable import (
@@ -384,7 +385,12 @@ media_rate
     def __await__(self) -> Generator[Any, None, Optional[GrainDataType]]:
         async def __inner():
             if self._data is None and self._data_fetcher_coroutine is not None:
-                self._store_fetched_data(await self._data_fetcher_coroutine)
+                # A coroutine can only be awaited once, so share its outcome between all the tasks awaiting this grain
+                # and don't lose it when one of them is cancelled.
+                fetcher = self._data_fetcher_coroutine = ensure_future(self._data_fetcher_coroutine)
+                value = await shield(fetcher)
+                if self._data_fetcher_coroutine is fetcher and self._data is None:
+                    self._store_fetched_data(value)
             return self.data
         return __inner().__await__()
 
-- 
2.43.0


From c20979eb07fab27d11f47fe48d72461e346716c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:54 +0000
Subject: [PATCH 03/82] fix: never take the result of a short read for complete
 data

A raw file may return less than was asked for without being at its end, which
was reported as the end of the stream, and a file ending in the middle of a
grain's data gave a grain with truncated data instead of ending the iteration
as it does when the file ends anywhere else.
---
 mediagrains/gsf.py                 | 60 ++++++++++++++++++------------
 mediagrains/utils/asyncbinaryio.py | 10 +++--
 mediagrains/utils/iobytes.py       |  6 +++
 3 files changed, 48 insertions(+), 28 deletions(-)

diff --git a/mediagrains/gsf.py b/mediagrains/gsf.py
index 7aff1fc..d984dda 100644
--- a/mediagrains/gsf.py
+++ b/mediagrains/gsf.py
@@ -235,6 +235,31 @@ class GSFDecodeBadVersionError(GSFDecodeError):
         self.minor = minor
 
 
+def _read_exactly(file_data: IO[bytes], length: int) -> bytes:
+    """Read `length` bytes from a file, which may return fewer bytes than it is asked for when it is unbuffered
+
+    :raises EOFError: If there are fewer than `length` bytes left in the source
+    """
+    data = file_data.read(length)
+    while len(data) < length:
+        more = file_data.read(length - len(data))
+        if not more:
+            raise EOFError("Unable to read enough bytes from source")
+        data += more
+    return data
+
+
+async def _async_read_exactly(file_data: OpenAsyncBinaryIO, length: int) -> bytes:
+    """Asynchronous equivalent of _read_exactly"""
+    data = await file_data.read(length)
+    while len(data) < length:
+        more = await file_data.read(length - len(data))
+        if not more:
+            raise EOFError("Unable to read enough bytes from source")
+        data += more
+    return data
+
+
 class AsyncGSFBlock():
     """A single block in a GSF file
 
@@ -380,7 +405,7 @@ class AsyncGSFBlock():
 
         bytes_remaining = self.get_remaining()
         if bytes_remaining > 0:
-            buffer = await self.file_data.read(bytes_remaining)
+            buffer = await _async_read_exactly(self.file_data, bytes_remaining)
         else:
             buffer = bytes()
 
@@ -409,10 +434,7 @@ class AsyncGSFBlock():
         :raises EOFError: If there are fewer than `length` bytes left in the source
         """
         r = 0
-        uint_bytes = await self.file_data.read(length)
-
-        if len(uint_bytes) != length:
-            raise EOFError("Unable to read enough bytes from source")
+        uint_bytes = await _async_read_exactly(self.file_data, length)
 
         for n in range(0, length):
             r += (uint_bytes[n] << (n*8))
@@ -425,9 +447,7 @@ class AsyncGSFBlock():
         :returns: String
         :raises EOFError: If there are fewer than `length` bytes left in the source
         """
-        string_data = await self.file_data.read(length)
-        if (len(string_data) != length):
-            raise EOFError("Unable to read enough bytes from source")
+        string_data = await _async_read_exactly(self.file_data, length)
 
         try:
             string = string_data.decode(encoding='utf-8').rstrip('\x00')
@@ -597,7 +617,7 @@ class SyncGSFBlock():
 
         bytes_remaining = self.get_remaining()
         if bytes_remaining > 0:
-            buffer = self.file_data.read(bytes_remaining)
+            buffer = _read_exactly(self.file_data, bytes_remaining)
         else:
             buffer = bytes()
 
@@ -626,10 +646,7 @@ class SyncGSFBlock():
         :raises EOFError: If there are fewer than `length` bytes left in the source
         """
         r = 0
-        uint_bytes = self.file_data.read(length)
-
-        if len(uint_bytes) != length:
-            raise EOFError("Unable to read enough bytes from source")
+        uint_bytes = _read_exactly(self.file_data, length)
 
         for n in range(0, length):
             r += (uint_bytes[n] << (n*8))
@@ -688,9 +705,7 @@ class SyncGSFBlock():
         :returns: String
         :raises EOFError: If there are fewer than `length` bytes left in the source
         """
-        string_data = self.file_data.read(length)
-        if (len(string_data) != length):
-            raise EOFError("Unable to read enough bytes from source")
+        string_data = _read_exactly(self.file_data, length)
 
         try:
             string = string_data.decode(encoding='utf-8').rstrip('\x00')
@@ -720,10 +735,7 @@ class SyncGSFBlock():
         :returns: UUID
         :raises EOFError: If there are fewer than l bytes left in the source
         """
-        uuid_data = self.file_data.read(16)
-
-        if (len(uuid_data) != 16):
-            raise EOFError("Unable to read enough bytes from source")
+        uuid_data = _read_exactly(self.file_data, 16)
 
         return UUID(bytes=uuid_data)
 
@@ -789,7 +801,7 @@ class SyncGSFBlock():
         :raises EOFError: If there are too few bytes left in the source
         """
         length = self.read_uint(4)
-        return self.file_data.read(length)
+        return _read_exactly(self.file_data, length)
 
     def skip(self, length: int) -> None:
         """Skip length bytes
@@ -1132,7 +1144,7 @@ class GSFAsyncDecoderSession(BaseGSFDecoderSession):
 
                 oldpos = file_data.tell()
                 file_data.seek(pos)
-                data = await file_data.read(length)
+                data = await _async_read_exactly(file_data, length)
                 file_data.seek(oldpos)
                 return data
             else:
@@ -1201,7 +1213,7 @@ class GSFAsyncDecoderSession(BaseGSFDecoderSession):
                                     else:
                                         await self.file_data.read(grdt_block.get_remaining())
                                 else:
-                                    data = await self.file_data.read(grdt_block.get_remaining())
+                                    data = await _async_read_exactly(self.file_data, grdt_block.get_remaining())
 
                 grain = self.Grain(meta, data)
 
@@ -1332,7 +1344,7 @@ class GSFSyncDecoderSession(BaseGSFDecoderSession):
                                     else:
                                         self.file_data.read(grdt_block.get_remaining())
                                 else:
-                                    data = self.file_data.read(grdt_block.get_remaining())
+                                    data = _read_exactly(self.file_data, grdt_block.get_remaining())
 
                 grain = self.Grain(meta, data)
 
diff --git a/mediagrains/utils/asyncbinaryio.py b/mediagrains/utils/asyncbinaryio.py
index 15fdfc6..68ad9e7 100644
--- a/mediagrains/utils/asyncbinaryio.py
+++ b/mediagrains/utils/asyncbinaryio.py
@@ -36,14 +36,16 @@ class OpenAsyncBinaryIO(metaclass=ABCMeta):
         if size == -1:
             return await self.readall()
         else:
-            while True:
-                b = bytearray(size)
+            data = b""
+            while len(data) < size:
+                b = bytearray(size - len(data))
                 s = await self.readinto(b)
                 if s is None:
                     continue
-                if s < size:
+                if s == 0:
                     raise EOFError
-                return bytes(b)
+                data += b[:s]
+            return data
 
     @abstractmethod
     async def readinto(self, b: bytearray) -> Union[int, None]: ...
diff --git a/mediagrains/utils/iobytes.py b/mediagrains/utils/iobytes.py
index 8ae825b..7dc29ad 100644
--- a/mediagrains/utils/iobytes.py
+++ b/mediagrains/utils/iobytes.py
@@ -140,6 +140,12 @@ class IOBytes (LazyLoader, Sequence):
             try:
                 self._istream.seek(self._start)
                 _bytes = self._istream.read(self._length)
+                more = _bytes
+                while more != b"" and 0 < len(_bytes) < self._length:
+                    more = self._istream.read(self._length - len(_bytes))
+                    _bytes += more
+                if more == b"" and self._length > 0:
+                    raise EOFError("Unable to read enough bytes from source")
             finally:
                 self._istream.seek(loc)
             return _bytes
-- 
2.43.0


From 8a0e2bede2d6bbdb7be34caa9707da8ba72c89ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:40 +0000
Subject: [PATCH 04/82] fix: write whole grains exactly once, however the
 encoder is shared and however short the writes are

---
 mediagrains/grains/Grain.py |   7 ++-
 mediagrains/gsf.py          | 104 +++++++++++++++++++++++++++++-------
 2 files changed, 91 insertions(+), 20 deletions(-)

diff --git a/mediagrains/grains/Grain.py b/mediagrains/grains/Grain.py
index ace048a..557f097 100644
--- a/mediagrains/grains/Grain.py
+++ b/mediagrains/grains/Grain.py
@@ -1,4 +1,4 @@
-from asyncio import ensure_future, shield
+from asyncio import Future, ensure_future, shield
 from enum import IntEnum
 from uuid import UUID
 from mediatimestamp.immutable import (
@@ -382,6 +382,11 @@ media_rate
     def has_data(self) -> bool:
         return self._data is not None
 
+    def data_is_pending(self) -> bool:
+        """True if the grain has to be awaited before its data element is known"""
+        fetcher = self._data_fetcher_coroutine
+        return self._data is None and fetcher is not None and not (isinstance(fetcher, Future) and fetcher.done())
+
     def __await__(self) -> Generator[Any, None, Optional[GrainDataType]]:
         async def __inner():
             if self._data is None and self._data_fetcher_coroutine is not None:
diff --git a/mediagrains/gsf.py b/mediagrains/gsf.py
index d984dda..92cd1e5 100644
--- a/mediagrains/gsf.py
+++ b/mediagrains/gsf.py
@@ -27,6 +27,7 @@ from datetime import datetime, timezone
 from io import BytesIO, RawIOBase, BufferedIOBase
 from mediatimestamp.immutable import Timestamp
 from fractions import Fraction
+from asyncio import Lock, shield
 from frozendict import frozendict
 from .utils import IOBytes
 from os import SEEK_SET, SEEK_CUR
@@ -1614,6 +1615,7 @@ class OpenGSFEncoderBase(object):
         self._segments = segments
         self._next_local = next_local
         self._active_dump = False
+        self._write_failed = False
 
     @property
     def tags(self) -> Tuple["GSFEncoderTag", ...]:
@@ -1728,6 +1730,18 @@ class OpenGSFEncoder(OpenGSFEncoderBase):
         super().__init__(major, minor, id, created, tags, segments, streaming, next_local)
         self.file = file
 
+    def _write(self, data: bytes) -> None:
+        """Write all of the data to the file. If that fails then the dump can't be completed any more."""
+        if self._write_failed:
+            raise GSFEncodeError("Cannot continue a dump after failing to write to the file")
+        self._write_failed = True
+        written = self.file.write(data)
+        while isinstance(written, int) and 0 < written < len(data):
+            # Unbuffered files don't always write everything they have been given
+            data = data[written:]
+            written = self.file.write(data)
+        self._write_failed = False
+
     def add_grain(self,
                   grain: Grain,
                   segment_id: Optional[UUID] = None,
@@ -1754,7 +1768,7 @@ class OpenGSFEncoder(OpenGSFEncoderBase):
 
         if self._active_dump:
             for grain in grains:
-                self.file.write(segment.encode_grain(grain))
+                self._write(segment.encode_grain(grain))
         else:
             segment.add_grains(grains)
 
@@ -1774,21 +1788,25 @@ class OpenGSFEncoder(OpenGSFEncoderBase):
         if not all_at_once and self.file.seekable():
             self._set_segment_offsets(segment_offsets, self.file.tell() + len(file_header))
 
-        self.file.write(file_header +
-                        head_block +
-                        self._encode_all_grains())
+        self._write(file_header +
+                    head_block +
+                    self._encode_all_grains())
 
     def _end_dump(self):
+        if self._write_failed:
+            self._active_dump = False
+            return
+
         for seg in self._segments.values():
             if self.file.seekable() and seg._count_pos != -1:
                 curpos = self.file.tell()
                 self.file.seek(seg._count_pos)
-                self.file.write(_encode_sint(seg.get_write_count(), 8))
+                self._write(_encode_sint(seg.get_write_count(), 8))
                 self.file.seek(curpos)
 
         if self._active_dump:
-            self.file.write(b"grai" +
-                            _encode_uint(0, 4))
+            self._write(b"grai" +
+                        _encode_uint(0, 4))
             self._active_dump = False
 
 
@@ -1814,6 +1832,21 @@ class OpenAsyncGSFEncoder(OpenGSFEncoderBase):
             self.file = None
             self._open_file = file
 
+        # Held while writing, so that tasks which share this encoder don't interfere with each other
+        self._lock = Lock()
+
+    async def _write(self, data: bytes) -> None:
+        """Write all of the data to the file. If that fails then the dump can't be completed any more."""
+        if self._write_failed:
+            raise GSFEncodeError("Cannot continue a dump after failing to write to the file")
+        self._write_failed = True
+        written = await self._open_file.write(data)
+        while isinstance(written, int) and 0 < written < len(data):
+            # Unbuffered files don't always write everything they have been given
+            data = data[written:]
+            written = await self._open_file.write(data)
+        self._write_failed = False
+
     async def add_grain(self,
                         grain: Grain,
                         segment_id: Optional[UUID] = None,
@@ -1840,10 +1873,25 @@ class OpenAsyncGSFEncoder(OpenGSFEncoderBase):
 
         if self._open_file is not None and self._active_dump:
             for grain in grains:
-                await self._open_file.write(segment.encode_grain(grain))
+                # A grain which has been started must be finished, even if the caller is cancelled
+                await shield(self._write_grain(segment, grain))
         else:
             segment.add_grains(grains)
 
+    async def _write_grain(self, segment: "GSFEncoderSegment", grain: Grain) -> None:
+        await grain
+        async with self._lock:
+            if not self._active_dump:
+                raise GSFEncodeError("Cannot add a grain to a progressive dump that has ended")
+            data = await self._encode_loaded_grains()
+            await self._write(data + segment.encode_grain(grain))
+
+    async def _encode_loaded_grains(self) -> bytes:
+        """Encode any grains that have been added to the segments but not written yet"""
+        for seg in self._segments.values():
+            await seg.load_all_grains()
+        return self._encode_all_grains()
+
     async def _truncate(self) -> None:
         if self._open_file is not None and self._open_file.seekable():
             self._open_file.seek(0)
@@ -1867,23 +1915,35 @@ class OpenAsyncGSFEncoder(OpenGSFEncoderBase):
         if not all_at_once and self._open_file.seekable():
             self._set_segment_offsets(segment_offsets, self._open_file.tell() + len(file_header))
 
-        await self._open_file.write(file_header +
-                                    head_block +
-                                    self._encode_all_grains())
+        await self._write(file_header +
+                          head_block +
+                          await self._encode_loaded_grains())
 
     async def _end_dump(self):
+        async with self._lock:
+            await self._end_locked_dump()
+
+    async def _end_locked_dump(self):
+        if self._write_failed:
+            self._active_dump = False
+            return
+
+        data = await self._encode_loaded_grains()
+        if data:
+            await self._write(data)
+
         for seg in self._segments.values():
             if self._open_file.seekable() and seg._count_pos != -1:
                 curpos = self._open_file.tell()
                 self._open_file.seek(seg._count_pos)
 
-                await self._open_file.write(_encode_sint(seg.get_write_count(), 8))
+                await self._write(_encode_sint(seg.get_write_count(), 8))
 
                 self._open_file.seek(curpos)
 
         if self._active_dump:
-            await self._open_file.write(b"grai" +
-                                        _encode_uint(0, 4))
+            await self._write(b"grai" +
+                              _encode_uint(0, 4))
 
             self._active_dump = False
 
@@ -2263,6 +2323,11 @@ class GSFEncoderSegment(object):
     def set_size_position(self, pos: int):
         self._count_pos = pos
 
+    async def load_all_grains(self) -> None:
+        """Wait for the data of every grain that encode_all_grains would encode"""
+        for grain in self._grains:
+            await grain
+
     def encode_all_grains(self) -> bytes:
         data = b''
         for grain in self._grains:
@@ -2272,6 +2337,9 @@ class GSFEncoderSegment(object):
         return data
 
     def encode_grain(self, grain: Grain) -> bytes:
+        if grain.data_is_pending():
+            raise GSFEncodeError("Cannot encode a grain whose data hasn't been loaded yet, await the grain first")
+        payload = b"" if grain.data is None else bytes(grain.data)
         gbhd_size = self._gbhd_size_for_grain(grain)
 
         encode_ts_f = _encode_ts
@@ -2282,7 +2350,7 @@ class GSFEncoderSegment(object):
 
         data = (
             b"grai" +
-            _encode_uint(10 + gbhd_size + 8 + grain.length, 4) +
+            _encode_uint(10 + gbhd_size + 8 + len(payload), 4) +
             _encode_uint(self.local_id, 2) +
 
             b"gbhd" +
@@ -2327,10 +2395,8 @@ class GSFEncoderSegment(object):
 
         data += (
             b"grdt" +
-            _encode_uint(8 + grain.length, 4))
-
-        if grain.data is not None:
-            data += bytes(grain.data)
+            _encode_uint(8 + len(payload), 4) +
+            payload)
 
         self._write_count += 1
 
-- 
2.43.0


From 8c04858cf5a0a04fd8de214058a519f32f8cf575 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:46 +0000
Subject: [PATCH 05/82] fix: keep the file position right when tasks load
 grains while others are being read

---
 mediagrains/gsf.py | 38 +++++++++++++++++++++++++++++---------
 1 file changed, 29 insertions(+), 9 deletions(-)

diff --git a/mediagrains/gsf.py b/mediagrains/gsf.py
index 92cd1e5..1d47995 100644
--- a/mediagrains/gsf.py
+++ b/mediagrains/gsf.py
@@ -47,6 +47,7 @@ from typing import (
     Type,
     IO,
     Sequence,
+    AsyncGenerator,
     AsyncIterable,
     Awaitable,
     overload,
@@ -1060,6 +1061,8 @@ class GSFAsyncDecoderSession(BaseGSFDecoderSession):
 
         self._exiting = False
         self._unloaded_lazy_grains: Dict[int, Grain] = {}
+        # Held while reading, so that tasks which share the file don't move each other's file position
+        self._file_lock = Lock()
         self._next_lazy_grain_number = 0
 
         self._sync_compatibility_mode = sync_compatibility_mode
@@ -1108,8 +1111,9 @@ class GSFAsyncDecoderSession(BaseGSFDecoderSession):
         del self._unloaded_lazy_grains[key]
 
     async def _kill_unused_lazy_loaders(self):
-        self._exiting = True
-        for (key, grain) in self._unloaded_lazy_grains.items():
+        async with self._file_lock:
+            self._exiting = True
+        for (key, grain) in list(self._unloaded_lazy_grains.items()):
             await grain
 
     async def _load_unused_lazy_loaders(self):
@@ -1134,6 +1138,21 @@ class GSFAsyncDecoderSession(BaseGSFDecoderSession):
         :yields: (Grain, local_id) tuple for each grain
         :raises GSFDecodeError: If grain is invalid (e.g. no "gbhd" child)
         """
+        async def _next_grain() -> Optional[Tuple[Grain, int]]:
+            async with self._file_lock:
+                return await anext(grains, None)
+
+        grains = self._read_grains(local_ids, loading_mode)
+        while True:
+            # A read which has been started carries on when the caller is cancelled, so keep the lock until it is over
+            grain = await shield(_next_grain())
+            if grain is None:
+                return
+            yield grain
+
+    async def _read_grains(self,
+                           local_ids: Optional[Sequence[int]],
+                           loading_mode: GrainDataLoadingMode) -> AsyncGenerator[Tuple[Grain, int], None]:
         async def _read_out_of_order(parent: GSFAsyncDecoderSession,
                                      key: int,
                                      file_data: OpenAsyncBinaryIO,
@@ -1141,13 +1160,14 @@ class GSFAsyncDecoderSession(BaseGSFDecoderSession):
                                      length: int,
                                      load_on_exit=False) -> Optional[bytes]:
             if load_on_exit or not parent._exiting:
-                parent._remove_lazy_grain(key)
-
-                oldpos = file_data.tell()
-                file_data.seek(pos)
-                data = await _async_read_exactly(file_data, length)
-                file_data.seek(oldpos)
-                return data
+                async with parent._file_lock:
+                    oldpos = file_data.tell()
+                    try:
+                        file_data.seek(pos)
+                        return await _async_read_exactly(file_data, length)
+                    finally:
+                        file_data.seek(oldpos)
+                        parent._remove_lazy_grain(key)
             else:
                 return None
 
-- 
2.43.0


From efe142dd69ad591638aec636bbfd4b116cb2da86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:53 +0000
Subject: [PATCH 06/82] fix: keep positions and contents right when adapters
 read everything or truncate

---
 mediagrains/utils/asyncbinaryio.py | 23 +++++++++++++----------
 1 file changed, 13 insertions(+), 10 deletions(-)

diff --git a/mediagrains/utils/asyncbinaryio.py b/mediagrains/utils/asyncbinaryio.py
index 68ad9e7..f21a5b3 100644
--- a/mediagrains/utils/asyncbinaryio.py
+++ b/mediagrains/utils/asyncbinaryio.py
@@ -134,7 +134,9 @@ class OpenAsyncBytesIO(OpenAsyncBinaryIO):
     @wrap_in_executor
     def readall(self) -> bytes:
         if self._pos >= 0 and self._pos < self._len:
-            return bytes(self._buffer[self._pos:self._len])
+            data = bytes(self._buffer[self._pos:self._len])
+            self._pos = self._len
+            return data
         else:
             return bytes()
 
@@ -155,10 +157,13 @@ class OpenAsyncBytesIO(OpenAsyncBinaryIO):
         return length
 
     async def truncate(self, size: Optional[int] = None) -> int:
-        if size is not None:
-            self._len = size
-        else:
-            self._len = max(self._pos, 0)
+        if size is None:
+            size = max(self._pos, 0)
+
+        # Whatever is added to the file, now or by writing further along later, has to read as zeroes
+        del self._buffer[size:]
+        self._buffer.extend(bytes(size - len(self._buffer)))
+        self._len = size
 
         return self._len
 
@@ -225,7 +230,7 @@ class OpenAsyncFileWrapper(OpenAsyncBinaryIO):
         return await wrap_in_executor(self.fp.readinto)(b)
 
     async def readall(self) -> bytes:
-        return await wrap_in_executor(self.fp.readall)()
+        return await self.read()
 
     async def write(self, b: bytes) -> Optional[int]:
         return await wrap_in_executor(self.fp.write)(b)
@@ -279,7 +284,7 @@ class OpenAsyncBytesIOWrapper(OpenAsyncBinaryIO):
         return self.fp.readinto(b)
 
     async def readall(self) -> bytes:
-        return self.fp.readall()
+        return await self.read()
 
     async def write(self, b: bytes) -> Optional[int]:
         return self.fp.write(b)
@@ -369,9 +374,7 @@ class OpenAsyncStreamWrapper(OpenAsyncBinaryIO):
             return len(d)
 
     async def readall(self) -> bytes:
-        d = await self.read()
-        self._pos += len(d)
-        return d
+        return await self.read()
 
     async def write(self, b: bytes) -> Optional[int]:
         if self.writer is None:
-- 
2.43.0


From 8a33fc176b80f5eed2e54597f64f07576ca06682 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:04 +0000
Subject: [PATCH 07/82] fix: let the command line tools wrap raw audio, and
 read pipes to their end like files

---
 mediagrains/tools/_file_or_pipe.py | 7 +++----
 mediagrains/tools/wrap_in_gsf.py   | 2 +-
 2 files changed, 4 insertions(+), 5 deletions(-)

diff --git a/mediagrains/tools/_file_or_pipe.py b/mediagrains/tools/_file_or_pipe.py
index 40f08b0..5c0809c 100644
--- a/mediagrains/tools/_file_or_pipe.py
+++ b/mediagrains/tools/_file_or_pipe.py
@@ -36,7 +36,7 @@ class InputStreamWrapper(BufferedIOBase):
             while len(out) < size:
                 b = self._file.read(s)
                 if len(b) == 0:
-                    raise EOFError
+                    break
                 s -= len(b)
                 out += b
 
@@ -51,9 +51,8 @@ class InputStreamWrapper(BufferedIOBase):
 
         if offset < 0:
             raise NotImplementedError("Cannot seek backwards in a stream")
-        if offset > 0:
-            self._file.read(offset)
-        self._pos += offset
+        if offset > 0 and len(self.read(offset)) < offset:
+            raise EOFError
         return self._pos
 
 
diff --git a/mediagrains/tools/wrap_in_gsf.py b/mediagrains/tools/wrap_in_gsf.py
index dd508d3..0b6e62a 100644
--- a/mediagrains/tools/wrap_in_gsf.py
+++ b/mediagrains/tools/wrap_in_gsf.py
@@ -175,7 +175,7 @@ def wrap_audio_in_gsf():
         template_grain = AudioGrain(
             flow_id=flow_id, src_id=source_id, origin_timestamp=args.start_ts, sample_rate=sample_rate,
             duration=duration, channels=channels, samples=samples_per_grain, cog_audio_format=args.format,
-            rate=fractions.Fraction(0, 1)
+            rate=1/duration
         )
         Wrapper = GrainWrapper
 
-- 
2.43.0


From 27013e3d20821aa806aa8d78411adca4b3409414 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:32 +0000
Subject: [PATCH 08/82] fix: pass the decoder's arguments on from loads

---
 mediagrains/gsf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mediagrains/gsf.py b/mediagrains/gsf.py
index 1d47995..44b4db3 100644
--- a/mediagrains/gsf.py
+++ b/mediagrains/gsf.py
@@ -103,7 +103,7 @@ def loads(s: bytes,
     if parse_grain is None:
         parse_grain = GrainFactory
 
-    return load(BytesIO(s), cls=cls, parse_grain=parse_grain)
+    return load(BytesIO(s), cls=cls, parse_grain=parse_grain, **kwargs)
 
 
 @overload
-- 
2.43.0


From 03bc76286eb1f4bc9b1d2486af2714efc37ea8ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:32 +0000
Subject: [PATCH 09/82] fix: don't cut strings which are too long for their
 field in the middle of a character

---
 mediagrains/gsf.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/mediagrains/gsf.py b/mediagrains/gsf.py
index 44b4db3..be49511 100644
--- a/mediagrains/gsf.py
+++ b/mediagrains/gsf.py
@@ -1577,6 +1577,11 @@ def _encode_uuid(val: UUID) -> bytes:
     return val.bytes
 
 
+def _encode_string(val: str, max_size: int) -> bytes:
+    """Encode a string, leaving out the characters that don't fit as a whole"""
+    return val.encode("utf-8")[:max_size].decode("utf-8", errors="ignore").encode("utf-8")
+
+
 def _encode_ts_v7(ts: Timestamp) -> bytes:
     return (_encode_uint(ts.sec, 6) +
             _encode_uint(ts.ns, 4))
@@ -2232,11 +2237,11 @@ class GSFEncoderTag(object):
 
     @property
     def encoded_key(self) -> bytes:
-        return self.key.encode("utf-8")[:65535]
+        return _encode_string(self.key, 65535)
 
     @property
     def encoded_value(self) -> bytes:
-        return self.value.encode("utf-8")[:65535]
+        return _encode_string(self.value, 65535)
 
     @property
     def tag_block_size(self) -> int:
@@ -2330,7 +2335,7 @@ class GSFEncoderSegment(object):
 
                 _encode_uuid(self._gsf_flow.src_id) +
                 _encode_uuid(self._gsf_flow.flow_id) +
-                (self._gsf_flow.format.encode("utf-8") + (b"\x00" * 64))[:64] +
+                (_encode_string(self._gsf_flow.format, 64) + (b"\x00" * 64))[:64] +
                 _encode_uint(len(self._gsf_flow.data), 4) +
                 self._gsf_flow.data
             )
@@ -2392,7 +2397,7 @@ class GSFEncoderSegment(object):
                 _encode_uint(len(grain.timelabels), 2))
 
             for label in grain.timelabels:
-                tag = (label['tag'].encode('utf-8') + (b"\x00" * 16))[:16]
+                tag = (_encode_string(label['tag'], 16) + (b"\x00" * 16))[:16]
                 data += (
                     tag +
                     _encode_uint(label['timelabel']['frames_since_midnight'], 4) +
-- 
2.43.0


From f9aaaad5aefb97c8d28839838f3e9be2a9bf7e20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:19 +0000
Subject: [PATCH 10/82] fix: reject new tags and segments while an asynchronous
 dump is in progress

---
 mediagrains/gsf.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/mediagrains/gsf.py b/mediagrains/gsf.py
index be49511..0d80c2f 100644
--- a/mediagrains/gsf.py
+++ b/mediagrains/gsf.py
@@ -2104,6 +2104,9 @@ class GSFEncoder(object):
             self._next_local = self._open_async_encoder._next_local
             self._open_async_encoder = None
 
+    def _is_dumping_asynchronously(self) -> bool:
+        return self._open_async_encoder is not None and self._open_async_encoder._active_dump
+
     @property
     def tags(self) -> Tuple["GSFEncoderTag", ...]:
         return tuple(self._tags)
@@ -2114,7 +2117,7 @@ class GSFEncoder(object):
 
     def add_tag(self, key: str, value: str):
         """Add a tag to the file"""
-        if self._open_encoder is not None:
+        if self._open_encoder is not None or self._is_dumping_asynchronously():
             raise GSFEncodeAddToActiveDump("Cannot add a new tag to an encoder that is currently dumping")
 
         self._tags.append(GSFEncoderTag(key, value))
@@ -2126,7 +2129,7 @@ class GSFEncoder(object):
         integer, otherwise the next available integer will be used. Returns the newly
         created segment."""
 
-        if self._open_encoder is not None:
+        if self._open_encoder is not None or self._is_dumping_asynchronously():
             raise GSFEncodeAddToActiveDump(
                 "Cannot add a new segment {} ({!s}) to an encoder that is currently dumping".format(local_id, id))
 
-- 
2.43.0


From 07a01a2e7e6f47683b9670194589b5b2e43271ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:41 +0000
Subject: [PATCH 11/82] fix: let a cancelled reader of a stream stop waiting
 for it

---
 mediagrains/gsf.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/mediagrains/gsf.py b/mediagrains/gsf.py
index 0d80c2f..07bca1a 100644
--- a/mediagrains/gsf.py
+++ b/mediagrains/gsf.py
@@ -1144,8 +1144,12 @@ class GSFAsyncDecoderSession(BaseGSFDecoderSession):
 
         grains = self._read_grains(local_ids, loading_mode)
         while True:
-            # A read which has been started carries on when the caller is cancelled, so keep the lock until it is over
-            grain = await shield(_next_grain())
+            if self.file_data.seekable_backwards():
+                # A read which has been started carries on when the caller is cancelled, so keep the lock until it is
+                # over
+                grain = await shield(_next_grain())
+            else:
+                grain = await _next_grain()
             if grain is None:
                 return
             yield grain
-- 
2.43.0


From 2e3fde8561468a85c5106afc373d2162e8a460d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:49 +0000
Subject: [PATCH 12/82] fix: keep data which arrives after the tasks awaiting
 it have been cancelled

---
 mediagrains/grains/Grain.py | 24 ++++++++++++++++--------
 1 file changed, 16 insertions(+), 8 deletions(-)

diff --git a/mediagrains/grains/Grain.py b/mediagrains/grains/Grain.py
index 557f097..9451964 100644
--- a/mediagrains/grains/Grain.py
+++ b/mediagrains/grains/Grain.py
@@ -279,6 +279,7 @@ media_rate
 
         self._data_fetcher_coroutine: Optional[Awaitable[Optional[GrainDataType]]]
         self._data_fetcher_length: int = 0
+        self._data_fetcher_task: Optional[Tuple[Awaitable[Optional[GrainDataType]], Future]] = None
         self._data: Optional[GrainDataType]
 
         if isawaitable(data):
@@ -384,21 +385,28 @@ media_rate
 
     def data_is_pending(self) -> bool:
         """True if the grain has to be awaited before its data element is known"""
-        fetcher = self._data_fetcher_coroutine
-        return self._data is None and fetcher is not None and not (isinstance(fetcher, Future) and fetcher.done())
+        if self._data is not None or self._data_fetcher_coroutine is None:
+            return False
+        task = self._data_fetcher_task
+        return task is None or task[0] is not self._data_fetcher_coroutine or not task[1].done()
 
     def __await__(self) -> Generator[Any, None, Optional[GrainDataType]]:
         async def __inner():
-            if self._data is None and self._data_fetcher_coroutine is not None:
+            fetcher = self._data_fetcher_coroutine
+            if self._data is None and fetcher is not None:
                 # A coroutine can only be awaited once, so share its outcome between all the tasks awaiting this grain
-                # and don't lose it when one of them is cancelled.
-                fetcher = self._data_fetcher_coroutine = ensure_future(self._data_fetcher_coroutine)
-                value = await shield(fetcher)
-                if self._data_fetcher_coroutine is fetcher and self._data is None:
-                    self._store_fetched_data(value)
+                # and don't lose it when they are cancelled.
+                if self._data_fetcher_task is None or self._data_fetcher_task[0] is not fetcher:
+                    self._data_fetcher_task = (fetcher, ensure_future(self._fetch_data(fetcher)))
+                await shield(self._data_fetcher_task[1])
             return self.data
         return __inner().__await__()
 
+    async def _fetch_data(self, fetcher: Awaitable[Optional[GrainDataType]]) -> None:
+        value = await fetcher
+        if self._data_fetcher_coroutine is fetcher and self._data is None:
+            self._store_fetched_data(value)
+
     def _store_fetched_data(self, value: Optional[GrainDataType]) -> None:
         """Store the data element that was obtained by awaiting self._data_fetcher_coroutine"""
         self._data = value
-- 
2.43.0


From d5fd6b5ced5c03f8a3ccd2c0c1756091c92c3243 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:01 +0000
Subject: [PATCH 13/82] fix: compare deferred data elements with each other by
 their contents

---
 mediagrains/utils/iobytes.py | 33 +++++++++++++++++++++------------
 1 file changed, 21 insertions(+), 12 deletions(-)

diff --git a/mediagrains/utils/iobytes.py b/mediagrains/utils/iobytes.py
index 7dc29ad..282cc20 100644
--- a/mediagrains/utils/iobytes.py
+++ b/mediagrains/utils/iobytes.py
@@ -25,6 +25,15 @@ from typing import List
 __all__ = ["IOBytes"]
 
 
+def _loaded(obj):
+    """What a LazyLoader stands for, loaded if it hasn't been yet, and any other object itself"""
+    if not isinstance(obj, LazyLoader):
+        return obj
+    if object.__getattribute__(obj, '_object') is None:
+        obj._object = object.__getattribute__(obj, '_loader')()
+    return object.__getattribute__(obj, '_object')
+
+
 class LazyLoader (object):
     """An object that will be loaded lazily as needed.
 
@@ -71,23 +80,23 @@ class LazyLoader (object):
             return setattr(object.__getattribute__(self, '_object'), attr, value)
 
     # In python2.7 some special methods may bypass __getattribute__, so need to be specifically redefined
-    def __lt__(self, *args, **kwargs):
-        return self.__getattribute__('__lt__')(*args, **kwargs)
+    def __lt__(self, other):
+        return self.__getattribute__('__lt__')(_loaded(other))
 
-    def __le__(self, *args, **kwargs):
-        return self.__getattribute__('__le__')(*args, **kwargs)
+    def __le__(self, other):
+        return self.__getattribute__('__le__')(_loaded(other))
 
-    def __gt__(self, *args, **kwargs):
-        return self.__getattribute__('__gt__')(*args, **kwargs)
+    def __gt__(self, other):
+        return self.__getattribute__('__gt__')(_loaded(other))
 
-    def __ge__(self, *args, **kwargs):
-        return self.__getattribute__('__ge__')(*args, **kwargs)
+    def __ge__(self, other):
+        return self.__getattribute__('__ge__')(_loaded(other))
 
-    def __eq__(self, *args, **kwargs):
-        return self.__getattribute__('__eq__')(*args, **kwargs)
+    def __eq__(self, other):
+        return self.__getattribute__('__eq__')(_loaded(other))
 
-    def __ne__(self, *args, **kwargs):
-        return self.__getattribute__('__ne__')(*args, **kwargs)
+    def __ne__(self, other):
+        return self.__getattribute__('__ne__')(_loaded(other))
 
     def __cmp__(self, *args, **kwargs):
         return self.__getattribute__('__cmp__')(*args, **kwargs)
-- 
2.43.0


From 6d3c88f2fa790bc1c4db224c500e4687ce15c008 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:42 +0000
Subject: [PATCH 14/82] fix: return the new position from seeks in asynchronous
 memory files

---
 mediagrains/utils/asyncbinaryio.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/mediagrains/utils/asyncbinaryio.py b/mediagrains/utils/asyncbinaryio.py
index f21a5b3..18d3875 100644
--- a/mediagrains/utils/asyncbinaryio.py
+++ b/mediagrains/utils/asyncbinaryio.py
@@ -177,6 +177,7 @@ class OpenAsyncBytesIO(OpenAsyncBinaryIO):
             self._pos += offset
         else:
             self._pos = self._len + offset
+        return self._pos
 
     def seekable(self) -> bool:
         return True
-- 
2.43.0


From 46fe77cd5e448cffc5e94b09cb8045da76451142 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:00 +0000
Subject: [PATCH 15/82] fix: leave asynchronous memory files alone when writing
 nothing beyond their end

---
 mediagrains/utils/asyncbinaryio.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mediagrains/utils/asyncbinaryio.py b/mediagrains/utils/asyncbinaryio.py
index 18d3875..fb656b0 100644
--- a/mediagrains/utils/asyncbinaryio.py
+++ b/mediagrains/utils/asyncbinaryio.py
@@ -142,7 +142,7 @@ class OpenAsyncBytesIO(OpenAsyncBinaryIO):
 
     @wrap_in_executor
     def write(self, b: bytes) -> int:
-        if self._pos < 0:
+        if self._pos < 0 or len(b) == 0:
             return 0
 
         if self._pos + len(b) > len(self._buffer):
-- 
2.43.0


From dd0d4acd58f0c137e0023fc12a8269489d49d654 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:15 +0000
Subject: [PATCH 16/82] fix: reject blocks which do not fit in their parent,
 after which readers went different ways

---
 mediagrains/gsf.py | 31 +++++++++++++++++++++++++++++--
 1 file changed, 29 insertions(+), 2 deletions(-)

diff --git a/mediagrains/gsf.py b/mediagrains/gsf.py
index 07bca1a..9b139f5 100644
--- a/mediagrains/gsf.py
+++ b/mediagrains/gsf.py
@@ -262,6 +262,19 @@ async def _async_read_exactly(file_data: OpenAsyncBinaryIO, length: int) -> byte
     return data
 
 
+def _check_fits_in_parent(block: Union["AsyncGSFBlock", "SyncGSFBlock"]) -> None:
+    """Check that a block, whose header has been read, ends where its parent does at the latest
+
+    Readers of a seekable file and of a stream would end up at different positions after such a block.
+
+    :raises GSFDecodeError: If the block is larger than its parent has space for
+    """
+    if block.parent_end is not None and block.size is not None:
+        if block.block_start + max(8, block.size) > block.parent_end:
+            raise GSFDecodeError(f"Block '{block.tag}' at {block.block_start} is too large for its parent",
+                                 block.block_start)
+
+
 class AsyncGSFBlock():
     """A single block in a GSF file
 
@@ -282,9 +295,12 @@ class AsyncGSFBlock():
         :param raise_on_wrong_tag: Set to True to raise a GSFDecodeError if the next block isn't `want_tag`
         """
         self.file_data: OpenAsyncBinaryIO
+        self.parent_end: Optional[int] = None
         if isinstance(file_data, AsyncGSFBlock):
             block = file_data
             self.file_data = block.file_data
+            if block.size is not None:
+                self.parent_end = block.block_start + block.size
         else:
             self.file_data = file_data
         self.want_tag = want_tag
@@ -322,6 +338,8 @@ class AsyncGSFBlock():
             else:
                 self.size = await self.read_uint(4)
 
+            _check_fits_in_parent(self)
+
             if self.want_tag is None or self.tag == self.want_tag:
                 return self
             elif self.tag != self.want_tag and self.raise_on_wrong_tag:
@@ -385,7 +403,7 @@ class AsyncGSFBlock():
         :raises GSFDecodeError: If there is a partial block and strict=True
         """
         while self.has_child_block(strict_blocks=strict_blocks):
-            async with AsyncGSFBlock(self.file_data) as child_block:
+            async with AsyncGSFBlock(self) as child_block:
                 yield child_block
 
     def get_remaining(self):
@@ -486,10 +504,13 @@ class SyncGSFBlock():
         """
         self.file_data: IO[bytes]
         self.file_data_start: int
+        self.parent_end: Optional[int] = None
         if isinstance(file_data, SyncGSFBlock):
             block = file_data
             self.file_data = block.file_data
             self.file_data_start = block.file_data_start
+            if block.size is not None:
+                self.parent_end = block.block_start + block.size
         else:
             self.file_data = cast(IO[bytes], file_data)
             self.file_data_start = file_data_start
@@ -534,6 +555,8 @@ class SyncGSFBlock():
             else:
                 self.size = self.read_uint(4)
 
+            _check_fits_in_parent(self)
+
             if self.want_tag is None or self.tag == self.want_tag:
                 return self
             elif self.tag != self.want_tag and self.raise_on_wrong_tag:
@@ -870,7 +893,7 @@ class BaseGSFDecoderSession(object):
 
                 # Segment blocks can have child tags as well
                 while head_child.has_child_block():
-                    with SyncGSFBlock(head_block) as segm_child:
+                    with SyncGSFBlock(head_child) as segm_child:
                         if segm_child.tag == "flow":
                             src_id = segm_child.read_uuid()
                             flow_id = segm_child.read_uuid()
@@ -1199,6 +1222,8 @@ class GSFAsyncDecoderSession(BaseGSFDecoderSession):
                         break
 
                     local_id = await grai_block.read_uint(2)
+                    if grai_block.get_remaining() < 0:
+                        raise GSFDecodeError(f"Grain at {grai_block.block_start} is too small", grai_block.block_start)
 
                     if local_ids is not None and local_id not in local_ids:
                         continue
@@ -1345,6 +1370,8 @@ class GSFSyncDecoderSession(BaseGSFDecoderSession):
                         break
 
                     local_id = grai_block.read_uint(2)
+                    if grai_block.get_remaining() < 0:
+                        raise GSFDecodeError(f"Grain at {grai_block.block_start} is too small", grai_block.block_start)
 
                     if local_ids is not None and local_id not in local_ids:
                         continue
-- 
2.43.0


From 20826c17713ecd9435647b5aac31f3f2ee592fa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:09 +0000
Subject: [PATCH 17/82] fix: count the grains of each dump of an encoder on
 their own

The count patched or written into the header of a repeated dump included the
grains of earlier dumps, and was patched in at a stale position when a dump in
one go followed a progressive one.
---
 mediagrains/gsf.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/mediagrains/gsf.py b/mediagrains/gsf.py
index 9b139f5..b0f91f4 100644
--- a/mediagrains/gsf.py
+++ b/mediagrains/gsf.py
@@ -2350,6 +2350,11 @@ class GSFEncoderSegment(object):
 
     def _encode_header(self, all_at_once: bool = False) -> Tuple[bytes, int]:
         self._active_dump = True
+
+        # Each dump writes a new file, so counts what it writes itself
+        self._write_count = 0
+        self._count_pos = -1
+
         data = (
             b"segm" +
             _encode_uint(self.segm_block_size, 4) +
-- 
2.43.0


From 7d9ec75f1ef4193abe1781f5a281c077cb23bac6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:14 +0000
Subject: [PATCH 18/82] fix: reject segments whose local id does not fit, and
 skip used ones when choosing

A rejected segment no longer changes which local id is chosen next.
---
 mediagrains/gsf.py | 44 ++++++++++++++++++++++++++++----------------
 1 file changed, 28 insertions(+), 16 deletions(-)

diff --git a/mediagrains/gsf.py b/mediagrains/gsf.py
index b0f91f4..8e9dfab 100644
--- a/mediagrains/gsf.py
+++ b/mediagrains/gsf.py
@@ -47,6 +47,7 @@ from typing import (
     Type,
     IO,
     Sequence,
+    Container,
     AsyncGenerator,
     AsyncIterable,
     Awaitable,
@@ -1652,6 +1653,25 @@ def _ensure_utc_datetime(value: datetime) -> datetime:
     return utc_value
 
 
+def _choose_local_id(local_id: Optional[int], next_local: int, used: Container[int]) -> int:
+    """Choose the local id of a new segment
+
+    :param local_id: The local id asked for, if any
+    :param next_local: The first local id to use otherwise, if it is not in use
+    :param used: The local ids which are in use
+    :raises GSFEncodeError: If the local id is in use or does not fit in its field
+    """
+    if local_id is None:
+        local_id = next_local
+        while local_id in used:
+            local_id += 1
+    elif local_id in used:
+        raise GSFEncodeError("Segment local id {} already in use".format(local_id))
+    if not 0 <= local_id <= 0xFFFF:
+        raise GSFEncodeError("Segment local id {} is out of range".format(local_id))
+    return local_id
+
+
 class OpenGSFEncoderBase(object):
     def __init__(self,
                  major: int,
@@ -1695,20 +1715,16 @@ class OpenGSFEncoderBase(object):
         integer, otherwise the next available integer will be used. Returns the newly
         created segment."""
 
-        if local_id is None:
-            local_id = self._next_local
-        if local_id >= self._next_local:
-            self._next_local = local_id + 1
-        if local_id in self._segments:
-            raise GSFEncodeError("Segment local id {} already in use".format(local_id))
-
-        if id is None:
-            id = uuid1()
-
         if self._active_dump:
             raise GSFEncodeAddToActiveDump(
                 "Cannot add a new segment {} ({!s}) to an encoder that is currently dumping".format(local_id, id))
 
+        local_id = _choose_local_id(local_id, self._next_local, self._segments)
+        self._next_local = max(self._next_local, local_id + 1)
+
+        if id is None:
+            id = uuid1()
+
         seg = GSFEncoderSegment(id, local_id, tags=tags, parent=self)
         self._segments[local_id] = seg
         return seg
@@ -2164,12 +2180,8 @@ class GSFEncoder(object):
             raise GSFEncodeAddToActiveDump(
                 "Cannot add a new segment {} ({!s}) to an encoder that is currently dumping".format(local_id, id))
 
-        if local_id is None:
-            local_id = self._next_local
-        if local_id >= self._next_local:
-            self._next_local = local_id + 1
-        if local_id in self._segments:
-            raise GSFEncodeError("Segment local id {} already in use".format(local_id))
+        local_id = _choose_local_id(local_id, self._next_local, self._segments)
+        self._next_local = max(self._next_local, local_id + 1)
 
         if id is None:
             id = uuid1()
-- 
2.43.0


From 035d4f188ee4fa70dd50b1a34003bb0bbdb7c7e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:02 +0000
Subject: [PATCH 19/82] fix: write grains added through segments of an earlier
 dump to the current one

Segments created by an open encoder kept buffering grains after it had been
closed, so these were missing from later progressive dumps.
---
 mediagrains/gsf.py | 23 ++++++++++++++++++-----
 1 file changed, 18 insertions(+), 5 deletions(-)

diff --git a/mediagrains/gsf.py b/mediagrains/gsf.py
index 8e9dfab..2be0ff3 100644
--- a/mediagrains/gsf.py
+++ b/mediagrains/gsf.py
@@ -1840,10 +1840,17 @@ class OpenGSFEncoder(OpenGSFEncoderBase):
 
         if self._active_dump:
             for grain in grains:
+                self._write_buffered_grains()
                 self._write(segment.encode_grain(grain))
         else:
             segment.add_grains(grains)
 
+    def _write_buffered_grains(self):
+        """Write any grains that have been added to the segments but not written yet"""
+        data = self._encode_all_grains()
+        if data:
+            self._write(data)
+
     def _truncate(self):
         if self.file.seekable():
             self.file.seek(0)
@@ -1869,6 +1876,8 @@ class OpenGSFEncoder(OpenGSFEncoderBase):
             self._active_dump = False
             return
 
+        self._write_buffered_grains()
+
         for seg in self._segments.values():
             if self.file.seekable() and seg._count_pos != -1:
                 curpos = self.file.tell()
@@ -1955,8 +1964,14 @@ class OpenAsyncGSFEncoder(OpenGSFEncoderBase):
         async with self._lock:
             if not self._active_dump:
                 raise GSFEncodeError("Cannot add a grain to a progressive dump that has ended")
-            data = await self._encode_loaded_grains()
-            await self._write(data + segment.encode_grain(grain))
+            await self._write_buffered_grains()
+            await self._write(segment.encode_grain(grain))
+
+    async def _write_buffered_grains(self) -> None:
+        """Write any grains that have been added to the segments but not written yet"""
+        data = await self._encode_loaded_grains()
+        if data:
+            await self._write(data)
 
     async def _encode_loaded_grains(self) -> bytes:
         """Encode any grains that have been added to the segments but not written yet"""
@@ -2000,9 +2015,7 @@ class OpenAsyncGSFEncoder(OpenGSFEncoderBase):
             self._active_dump = False
             return
 
-        data = await self._encode_loaded_grains()
-        if data:
-            await self._write(data)
+        await self._write_buffered_grains()
 
         for seg in self._segments.values():
             if self._open_file.seekable() and seg._count_pos != -1:
-- 
2.43.0


From 6fa91045112af6549e02536483f1e6997e17c67c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:46 +0000
Subject: [PATCH 20/82] fix: wait for grains which are added while others are
 being waited for

---
 mediagrains/gsf.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/mediagrains/gsf.py b/mediagrains/gsf.py
index 2be0ff3..779560b 100644
--- a/mediagrains/gsf.py
+++ b/mediagrains/gsf.py
@@ -1975,8 +1975,12 @@ class OpenAsyncGSFEncoder(OpenGSFEncoderBase):
 
     async def _encode_loaded_grains(self) -> bytes:
         """Encode any grains that have been added to the segments but not written yet"""
-        for seg in self._segments.values():
-            await seg.load_all_grains()
+        # Other tasks can add more of them while this waits for their data
+        loaded = False
+        while not loaded:
+            for seg in self._segments.values():
+                await seg.load_all_grains()
+            loaded = not any(seg.has_pending_grains() for seg in self._segments.values())
         return self._encode_all_grains()
 
     async def _truncate(self) -> None:
@@ -2412,6 +2416,10 @@ class GSFEncoderSegment(object):
     def set_size_position(self, pos: int):
         self._count_pos = pos
 
+    def has_pending_grains(self) -> bool:
+        """True if load_all_grains has to be awaited before encode_all_grains can be called"""
+        return any(grain.data_is_pending() for grain in self._grains)
+
     async def load_all_grains(self) -> None:
         """Wait for the data of every grain that encode_all_grains would encode"""
         for grain in self._grains:
-- 
2.43.0


From 2681b26f053703f6972576fca04cca0f634933d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:51 +0000
Subject: [PATCH 21/82] fix: don't take slices of one H.264 picture with
 different nal_ref_idc for two pictures

---
 mediagrains/utils/h264_parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mediagrains/utils/h264_parser.py b/mediagrains/utils/h264_parser.py
index 4b53589..79e185a 100644
--- a/mediagrains/utils/h264_parser.py
+++ b/mediagrains/utils/h264_parser.py
@@ -201,7 +201,7 @@ class H264Parser(object):
                                     (slice_header.field_pic_flag and
                                         slice_header.bottom_field_flag != first_slice_header.bottom_field_flag) or
                                     (slice_header.nal_ref_idc != first_slice_header.nal_ref_idc and
-                                        (slice_header.nal_ref_idc != 0 or first_slice_header.nal_ref_idc != 0)) or
+                                        (slice_header.nal_ref_idc == 0 or first_slice_header.nal_ref_idc == 0)) or
                                     slice_header.idr_pic_flag != first_slice_header.idr_pic_flag or
                                     (slice_header.idr_pic_flag == 1 and
                                         slice_header.idr_pic_id != first_slice_header.idr_pic_id) or
-- 
2.43.0


From 46710fa17564f0cde5a742f3a32adf4a2b0e5979 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:51 +0000
Subject: [PATCH 22/82] fix: give wrapped grains the sync timestamps and the
 duration which match their timestamps and rate

---
 mediagrains/utils/grain_wrapper.py      | 1 +
 mediagrains/utils/h264_grain_wrapper.py | 2 ++
 2 files changed, 3 insertions(+)

diff --git a/mediagrains/utils/grain_wrapper.py b/mediagrains/utils/grain_wrapper.py
index 7b941fc..1214548 100644
--- a/mediagrains/utils/grain_wrapper.py
+++ b/mediagrains/utils/grain_wrapper.py
@@ -54,6 +54,7 @@ class GrainWrapper():
         for timestamp in grain_timerange.at_rate(self.template_grain.rate):
             new_grain = copy.deepcopy(self.template_grain)
             new_grain.origin_timestamp = timestamp
+            new_grain.sync_timestamp = timestamp
 
             try:
                 grain_data = self.input_data.read(self.frame_size)
diff --git a/mediagrains/utils/h264_grain_wrapper.py b/mediagrains/utils/h264_grain_wrapper.py
index 86cde04..69af943 100644
--- a/mediagrains/utils/h264_grain_wrapper.py
+++ b/mediagrains/utils/h264_grain_wrapper.py
@@ -136,6 +136,7 @@ class H264GrainWrapper(object):
                         self.template_grain.coded_height = 0
                 if frame_info.frame_rate is not None:
                     self.template_grain.rate = frame_info.frame_rate
+                    self.template_grain.duration = 1/frame_info.frame_rate
 
         rate = self.template_grain.rate
         norm_origin_ts = self.template_grain.origin_timestamp.normalise(rate.numerator, rate.denominator)
@@ -146,6 +147,7 @@ class H264GrainWrapper(object):
 
             new_grain = copy.deepcopy(self.template_grain)
             new_grain.origin_timestamp = norm_origin_ts
+            new_grain.sync_timestamp = norm_origin_ts
             if frame_info is not None:
                 new_grain.is_key_frame = frame_info.key_frame
             else:
-- 
2.43.0


From 784e2375cb7239dee5a121bbe0296bf5bc5ee76d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:13 +0000
Subject: [PATCH 23/82] fix: wrap whole grains when the input delivers fewer
 bytes than it is asked for

---
 mediagrains/utils/adts_aac_grain_wrapper.py |  5 +++--
 mediagrains/utils/grain_wrapper.py          | 16 +++++++++++++++-
 2 files changed, 18 insertions(+), 3 deletions(-)

diff --git a/mediagrains/utils/adts_aac_grain_wrapper.py b/mediagrains/utils/adts_aac_grain_wrapper.py
index b137da5..c72d2d4 100644
--- a/mediagrains/utils/adts_aac_grain_wrapper.py
+++ b/mediagrains/utils/adts_aac_grain_wrapper.py
@@ -23,6 +23,7 @@ from fractions import Fraction
 from mediatimestamp.immutable import TimeRange
 
 from ..grains import Grain, CodedAudioGrain
+from .grain_wrapper import read_up_to
 from .adts_aac_parser import ADTSAACParser, FrameInfo, MIN_ADTS_HEADER_SIZE
 
 
@@ -51,12 +52,12 @@ class ADTSAACGrainWrapper(object):
         adts_aac_parser = ADTSAACParser()
 
         while True:
-            frame_data = self.input_data.read(MIN_ADTS_HEADER_SIZE)
+            frame_data = read_up_to(self.input_data, MIN_ADTS_HEADER_SIZE)
             if not frame_data:
                 break
 
             frame_info = adts_aac_parser.parse_header(frame_data)
-            frame_data += self.input_data.read(frame_info.frame_size - len(frame_data))
+            frame_data += read_up_to(self.input_data, frame_info.frame_size - len(frame_data))
 
             yield (frame_data, frame_info)
 
diff --git a/mediagrains/utils/grain_wrapper.py b/mediagrains/utils/grain_wrapper.py
index 1214548..e519b77 100644
--- a/mediagrains/utils/grain_wrapper.py
+++ b/mediagrains/utils/grain_wrapper.py
@@ -25,6 +25,20 @@ from mediatimestamp.immutable import TimeRange
 from mediagrains.grains import Grain
 
 
+def read_up_to(input_data: typing.IO[bytes], length: int) -> bytes:
+    """Read `length` bytes from an input, or what is left if it ends before that
+
+    Unbuffered inputs return fewer bytes than they are asked for whenever that is what they have at hand.
+    """
+    data = input_data.read(length)
+    while data and length > len(data):
+        more = input_data.read(length - len(data))
+        if not more:
+            break
+        data += more
+    return data
+
+
 class GrainWrapper():
     """Raw input and wrap it in Grains"""
     def __init__(
@@ -57,7 +71,7 @@ class GrainWrapper():
             new_grain.sync_timestamp = timestamp
 
             try:
-                grain_data = self.input_data.read(self.frame_size)
+                grain_data = read_up_to(self.input_data, self.frame_size)
             except EOFError:
                 break
 
-- 
2.43.0


From 482bfe0eadfe8986464477a1b031cc255dc90d93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:48 +0000
Subject: [PATCH 24/82] fix: read H.264 slice group ids with the number of bits
 they have

---
 mediagrains/utils/h264_parser.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/mediagrains/utils/h264_parser.py b/mediagrains/utils/h264_parser.py
index 79e185a..b0127f0 100644
--- a/mediagrains/utils/h264_parser.py
+++ b/mediagrains/utils/h264_parser.py
@@ -592,11 +592,8 @@ class H264Parser(object):
                 rbsp_bits.read('ue')  # slice_group_change_rate_minus1
             elif slice_group_map_type == 6:
                 pic_size_in_map_units_minus1 = rbsp_bits.read('ue')
+                bits_required = num_slice_groups_minus1.bit_length()  # Ceil(Log2(num_slice_groups_minus1 + 1))
                 for _ in range(0, pic_size_in_map_units_minus1 + 1):
-                    value = pic_size_in_map_units_minus1 + 1
-                    bits_required = 63
-                    while bits_required and not (value & (1 << bits_required)):
-                        bits_required -= 1
                     rbsp_bits.read('uint:{}'.format(bits_required))  # slice_group_id[]
         rbsp_bits.read('ue')  # num_ref_idx_l0_default_active_minus1
         rbsp_bits.read('ue')  # num_ref_idx_l1_default_active_minus1
-- 
2.43.0


From 7f469487250ee1547fb561d025aefb6bb02ca670 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:19 +0000
Subject: [PATCH 25/82] fix: assume the usual number of samples per AAC frame
 when the template has none

---
 mediagrains/utils/adts_aac_grain_wrapper.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mediagrains/utils/adts_aac_grain_wrapper.py b/mediagrains/utils/adts_aac_grain_wrapper.py
index c72d2d4..ba0c15c 100644
--- a/mediagrains/utils/adts_aac_grain_wrapper.py
+++ b/mediagrains/utils/adts_aac_grain_wrapper.py
@@ -77,7 +77,7 @@ class ADTSAACGrainWrapper(object):
         else:
             self.template_grain.channels = frame_info.channels
             self.template_grain.sample_rate = frame_info.sample_rate
-            if self.template_grain.samples is None:
+            if not self.template_grain.samples:
                 # Assuming 1024 samples per coded frame.
                 # Use the --samples-per-grain option to override it to be 2048
                 self.template_grain.samples = 1024
-- 
2.43.0


From cc44644026afcc40c89e1470c0fa2d4964607628 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:05 +0000
Subject: [PATCH 26/82] fix: wrap all of an H.264 input which ends in the
 middle of a NAL unit

---
 mediagrains/utils/h264_parser.py | 57 +++++++++++++++++---------------
 1 file changed, 31 insertions(+), 26 deletions(-)

diff --git a/mediagrains/utils/h264_parser.py b/mediagrains/utils/h264_parser.py
index b0127f0..12e8287 100644
--- a/mediagrains/utils/h264_parser.py
+++ b/mediagrains/utils/h264_parser.py
@@ -293,37 +293,42 @@ class H264Parser(object):
 
         # Parse the active SPS and primary slice header.
         primary_slice_headers = []
-        for next_offset in chain(nalu_offsets, [frame_bits.len]):
-            nal_unit_type = self._parse_nal_unit_type(frame_bits[offset:next_offset])
-
-            if (nal_unit_type == NALUnitTypes.CODED_SLICE_NON_IDR_PICT or
-                    nal_unit_type == NALUnitTypes.CODED_SLICE_DATA_PART_A or
-                    nal_unit_type == NALUnitTypes.CODED_SLICE_IDR_PICT):
-                # Parse the slice header
-                rbsp_bits = self._parse_rbsp_bits(frame_bits[offset:next_offset])
-                slice_header = self._parse_slice_header(rbsp_bits)
-
-                # Stop if not a primary slice header
-                if slice_header.redundant_pic_cnt != 0:
-                    break
+        try:
+            for next_offset in chain(nalu_offsets, [frame_bits.len]):
+                nal_unit_type = self._parse_nal_unit_type(frame_bits[offset:next_offset])
+
+                if (nal_unit_type == NALUnitTypes.CODED_SLICE_NON_IDR_PICT or
+                        nal_unit_type == NALUnitTypes.CODED_SLICE_DATA_PART_A or
+                        nal_unit_type == NALUnitTypes.CODED_SLICE_IDR_PICT):
+                    # Parse the slice header
+                    rbsp_bits = self._parse_rbsp_bits(frame_bits[offset:next_offset])
+                    slice_header = self._parse_slice_header(rbsp_bits)
 
-                primary_slice_headers.append(slice_header)
+                    # Stop if not a primary slice header
+                    if slice_header.redundant_pic_cnt != 0:
+                        break
 
-            elif nal_unit_type <= NALUnitTypes.CODED_SLICE_IDR_PICT:
-                # No primary slices
-                break
+                    primary_slice_headers.append(slice_header)
+
+                elif nal_unit_type <= NALUnitTypes.CODED_SLICE_IDR_PICT:
+                    # No primary slices
+                    break
+
+                elif nal_unit_type == NALUnitTypes.SEQUENCE_PARAMETER_SET:
+                    rbsp_bits = self._parse_rbsp_bits(frame_bits[offset:next_offset])
+                    sps = self._parse_sps(rbsp_bits)
+                    self.sps_sets[sps.seq_parameter_set_id] = sps
 
-            elif nal_unit_type == NALUnitTypes.SEQUENCE_PARAMETER_SET:
-                rbsp_bits = self._parse_rbsp_bits(frame_bits[offset:next_offset])
-                sps = self._parse_sps(rbsp_bits)
-                self.sps_sets[sps.seq_parameter_set_id] = sps
+                elif nal_unit_type == NALUnitTypes.PICTURE_PARAMETER_SET:
+                    rbsp_bits = self._parse_rbsp_bits(frame_bits[offset:next_offset])
+                    pps = self._parse_pps(rbsp_bits)
+                    self.pps_sets[pps.pic_parameter_set_id] = pps
 
-            elif nal_unit_type == NALUnitTypes.PICTURE_PARAMETER_SET:
-                rbsp_bits = self._parse_rbsp_bits(frame_bits[offset:next_offset])
-                pps = self._parse_pps(rbsp_bits)
-                self.pps_sets[pps.pic_parameter_set_id] = pps
+                offset = next_offset
 
-            offset = next_offset
+        except ReadError:
+            # The input ends in the middle of a NAL unit. Use what there is before that.
+            pass
 
         if primary_slice_headers:
             return self._extract_frame_info(primary_slice_headers)
-- 
2.43.0


From be6b1545a4ce67c07b414ffefb90ce17635cc830 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:25 +0000
Subject: [PATCH 27/82] fix: look at all slices of the last H.264 frame to tell
 whether it is a key frame

---
 mediagrains/utils/h264_parser.py | 11 ++---------
 1 file changed, 2 insertions(+), 9 deletions(-)

diff --git a/mediagrains/utils/h264_parser.py b/mediagrains/utils/h264_parser.py
index 12e8287..b0a7e5d 100644
--- a/mediagrains/utils/h264_parser.py
+++ b/mediagrains/utils/h264_parser.py
@@ -304,15 +304,8 @@ class H264Parser(object):
                     rbsp_bits = self._parse_rbsp_bits(frame_bits[offset:next_offset])
                     slice_header = self._parse_slice_header(rbsp_bits)
 
-                    # Stop if not a primary slice header
-                    if slice_header.redundant_pic_cnt != 0:
-                        break
-
-                    primary_slice_headers.append(slice_header)
-
-                elif nal_unit_type <= NALUnitTypes.CODED_SLICE_IDR_PICT:
-                    # No primary slices
-                    break
+                    if slice_header.redundant_pic_cnt == 0:
+                        primary_slice_headers.append(slice_header)
 
                 elif nal_unit_type == NALUnitTypes.SEQUENCE_PARAMETER_SET:
                     rbsp_bits = self._parse_rbsp_bits(frame_bits[offset:next_offset])
-- 
2.43.0


From 7a14ea3d00b52d4b463e6d35e24f2ec352cad5e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:58 +0000
Subject: [PATCH 28/82] fix: wrap AAC on the command line without its optional
 parameters

---
 mediagrains/tools/wrap_in_gsf.py | 34 +++++++++++++++-----------------
 1 file changed, 16 insertions(+), 18 deletions(-)

diff --git a/mediagrains/tools/wrap_in_gsf.py b/mediagrains/tools/wrap_in_gsf.py
index 0b6e62a..5af5b63 100644
--- a/mediagrains/tools/wrap_in_gsf.py
+++ b/mediagrains/tools/wrap_in_gsf.py
@@ -147,31 +147,29 @@ def wrap_audio_in_gsf():
     flow_id = args.flow_id if args.flow_id else uuid.uuid4()
     source_id = args.source_id if args.source_id else uuid.uuid4()
 
-    if args.format == CogAudioFormat.AAC:
-        duration = fractions.Fraction(args.samples_per_grain, args.sample_rate)
+    channels = args.channels
+    if channels is None:
+        channels = 2
+
+    samples_per_grain = args.samples_per_grain
+    if samples_per_grain is None:
+        samples_per_grain = 1024 if args.format == CogAudioFormat.AAC else 1920
+
+    sample_rate = args.sample_rate
+    if sample_rate is None:
+        sample_rate = 48000
 
+    duration = fractions.Fraction(samples_per_grain, sample_rate)
+
+    if args.format == CogAudioFormat.AAC:
         template_grain = CodedAudioGrain(
-            flow_id=flow_id, src_id=source_id, origin_timestamp=args.start_ts, sample_rate=args.sample_rate,
-            duration=duration, channels=args.channels, samples=args.samples_per_grain, cog_audio_format=args.format,
+            flow_id=flow_id, src_id=source_id, origin_timestamp=args.start_ts, sample_rate=sample_rate,
+            duration=duration, channels=channels, samples=samples_per_grain, cog_audio_format=args.format,
             rate=fractions.Fraction(0, 1)
         )
         Wrapper = ADTSAACGrainWrapper
 
     else:
-        channels = args.channels
-        if channels is None:
-            channels = 2
-
-        samples_per_grain = args.samples_per_grain
-        if samples_per_grain is None:
-            samples_per_grain = 1920
-
-        sample_rate = args.sample_rate
-        if sample_rate is None:
-            sample_rate = 48000
-
-        duration = fractions.Fraction(samples_per_grain, sample_rate)
-
         template_grain = AudioGrain(
             flow_id=flow_id, src_id=source_id, origin_timestamp=args.start_ts, sample_rate=sample_rate,
             duration=duration, channels=channels, samples=samples_per_grain, cog_audio_format=args.format,
-- 
2.43.0


From 7dbaf1e1e87f48105e97ec109ec41481438f517d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:58 +0000
Subject: [PATCH 29/82] fix: extract the essence of files which have grains
 without data

---
 mediagrains/tools/extract_from_gsf.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mediagrains/tools/extract_from_gsf.py b/mediagrains/tools/extract_from_gsf.py
index d54b2eb..ba45726 100644
--- a/mediagrains/tools/extract_from_gsf.py
+++ b/mediagrains/tools/extract_from_gsf.py
@@ -45,7 +45,8 @@ def extract_gsf_essence():
         for grain, local_id in decoder.grains(local_ids=args.only_id):
             print("Got grain with local_id {} at {}".format(local_id, grain.origin_timestamp.to_sec_nsec()),
                   file=sys.stderr)
-            output_data.write(grain.data)
+            if grain.data is not None:
+                output_data.write(grain.data)
 
 
 def gsf_probe():
-- 
2.43.0


From 1895d3d65cc0f719f6d380a6543ee72203678dc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:38 +0000
Subject: [PATCH 30/82] fix: report errors which happen while the rest of a
 block is skipped

---
 mediagrains/gsf.py | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/mediagrains/gsf.py b/mediagrains/gsf.py
index 779560b..17d363c 100644
--- a/mediagrains/gsf.py
+++ b/mediagrains/gsf.py
@@ -24,7 +24,7 @@ for documentation of the GSF format.
 from .grains import Grain, GrainFactory
 from uuid import UUID, uuid1
 from datetime import datetime, timezone
-from io import BytesIO, RawIOBase, BufferedIOBase
+from io import BytesIO, RawIOBase, BufferedIOBase, UnsupportedOperation
 from mediatimestamp.immutable import Timestamp
 from fractions import Fraction
 from asyncio import Lock, shield
@@ -357,7 +357,7 @@ class AsyncGSFBlock():
                 self.size = None
                 self.tag = ""
 
-    async def __aexit__(self, *args):
+    async def __aexit__(self, exc_type, exc_value, traceback):
         """When used as a context manager, exiting context should seek to the block end"""
         try:
             if self.size is not None:
@@ -367,6 +367,10 @@ class AsyncGSFBlock():
             else:
                 actual_size = 0
             self.file_data.seek(self.block_start + actual_size, SEEK_SET)
+        except OSError as e:
+            # Going on from an unknown position would be wrong
+            if exc_type is None and not isinstance(e, UnsupportedOperation):
+                raise
         except Exception:
             pass
 
@@ -574,7 +578,7 @@ class SyncGSFBlock():
                 self.size = None
                 self.tag = ""
 
-    def __exit__(self, *args):
+    def __exit__(self, exc_type, exc_value, traceback):
         """When used as a context manager, exiting context should seek to the block end"""
         try:
             if self.size is not None:
@@ -584,6 +588,10 @@ class SyncGSFBlock():
             else:
                 actual_size = 0
             self.file_data.seek(self.block_start + actual_size - self.file_data_start, SEEK_SET)
+        except OSError as e:
+            # Going on from an unknown position would be wrong
+            if exc_type is None and not isinstance(e, UnsupportedOperation):
+                raise
         except Exception:
             pass
 
-- 
2.43.0


From 351da0e7a749ab8ddfbd0c28967a26c4531b45a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:17 +0000
Subject: [PATCH 31/82] fix: extract everything when the output is unbuffered

---
 mediagrains/tools/extract_from_gsf.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/mediagrains/tools/extract_from_gsf.py b/mediagrains/tools/extract_from_gsf.py
index ba45726..dfdef42 100644
--- a/mediagrains/tools/extract_from_gsf.py
+++ b/mediagrains/tools/extract_from_gsf.py
@@ -45,8 +45,10 @@ def extract_gsf_essence():
         for grain, local_id in decoder.grains(local_ids=args.only_id):
             print("Got grain with local_id {} at {}".format(local_id, grain.origin_timestamp.to_sec_nsec()),
                   file=sys.stderr)
-            if grain.data is not None:
-                output_data.write(grain.data)
+            data = grain.data
+            while data:
+                # Unbuffered output doesn't always take everything it is given
+                data = data[output_data.write(data):]
 
 
 def gsf_probe():
-- 
2.43.0


From 7d2d65e872ace4256fdaa89312831648977a3661 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:23 +0000
Subject: [PATCH 32/82] fix: tell the length of numpy grains which are still to
 be awaited

---
 mediagrains/numpy/numpy_grains/AudioGrain.py | 2 +-
 mediagrains/numpy/numpy_grains/VideoGrain.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/mediagrains/numpy/numpy_grains/AudioGrain.py b/mediagrains/numpy/numpy_grains/AudioGrain.py
index ce636a8..31293e4 100644
--- a/mediagrains/numpy/numpy_grains/AudioGrain.py
+++ b/mediagrains/numpy/numpy_grains/AudioGrain.py
@@ -154,7 +154,7 @@ class AudioGrain (bytesgrain.AudioGrain):
         if self._data is not None:
             return self._data.nbytes
         else:
-            return 0
+            return super().length
 
     @length.setter
     def length(self, L: int) -> None:
diff --git a/mediagrains/numpy/numpy_grains/VideoGrain.py b/mediagrains/numpy/numpy_grains/VideoGrain.py
index 998432b..4c7c0ac 100644
--- a/mediagrains/numpy/numpy_grains/VideoGrain.py
+++ b/mediagrains/numpy/numpy_grains/VideoGrain.py
@@ -265,7 +265,7 @@ class VideoGrain (bytesgrain.VideoGrain):
     @property
     def length(self) -> int:
         if self._data is None:
-            return 0
+            return super().length
         return self._data.nbytes
 
     @length.setter
-- 
2.43.0


From b2f2dd00fe179c68669174ce26b247bdd2984e6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:42 +0000
Subject: [PATCH 33/82] fix: don't overwrite data given to an event grain with
 data which is still to be awaited

---
 mediagrains/grains/EventGrain.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/mediagrains/grains/EventGrain.py b/mediagrains/grains/EventGrain.py
index 7b8ebca..0b43bef 100644
--- a/mediagrains/grains/EventGrain.py
+++ b/mediagrains/grains/EventGrain.py
@@ -193,6 +193,7 @@ append(path, pre=None, post=None)
 
         if 'type' not in payload or 'topic' not in payload or 'data' not in payload:
             raise ValueError("incorrectly formated event payload")
+        self._data_fetcher_coroutine = None
         self.event_type = payload['type']
         self.topic = payload['topic']
         self.meta['grain']['event_payload']['data'] = []
-- 
2.43.0


From 47f982886f0bf7155ba71105b9f044ea50949d95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:24 +0000
Subject: [PATCH 34/82] fix: keep waiting when a grain is given another
 awaitable while it is awaited

---
 mediagrains/grains/Grain.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/mediagrains/grains/Grain.py b/mediagrains/grains/Grain.py
index 9451964..9f2dfd4 100644
--- a/mediagrains/grains/Grain.py
+++ b/mediagrains/grains/Grain.py
@@ -392,8 +392,12 @@ media_rate
 
     def __await__(self) -> Generator[Any, None, Optional[GrainDataType]]:
         async def __inner():
-            fetcher = self._data_fetcher_coroutine
-            if self._data is None and fetcher is not None:
+            fetcher = None
+            # Start again if the grain has been given something else to await in the meantime
+            while self._data is None and self._data_fetcher_coroutine is not fetcher:
+                fetcher = self._data_fetcher_coroutine
+                if fetcher is None:
+                    break
                 # A coroutine can only be awaited once, so share its outcome between all the tasks awaiting this grain
                 # and don't lose it when they are cancelled.
                 if self._data_fetcher_task is None or self._data_fetcher_task[0] is not fetcher:
-- 
2.43.0


From 48dae7c068865309b331c7eca2feda43f0b2cf44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:40 +0000
Subject: [PATCH 35/82] fix: generate test patterns of widths which aren't
 multiples of eight

---
 mediagrains/patterngenerators/video/colourbars.py | 2 +-
 mediagrains/patterngenerators/video/lumasteps.py  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/mediagrains/patterngenerators/video/colourbars.py b/mediagrains/patterngenerators/video/colourbars.py
index 78ec154..e44edda 100644
--- a/mediagrains/patterngenerators/video/colourbars.py
+++ b/mediagrains/patterngenerators/video/colourbars.py
@@ -59,7 +59,7 @@ class ColourBars(StillPatternGenerator):
             bytearray(vg.components[2].width*_bpp)]
         for c in range(0, 3):
             for x in range(0, vg.components[c].width):
-                pos = x//(vg.components[c].width//_steps)
+                pos = x*_steps//vg.components[c].width
                 if _bpp == 1:
                     lines[c][x] = values[pos][c]
                 elif _bpp == 2:
diff --git a/mediagrains/patterngenerators/video/lumasteps.py b/mediagrains/patterngenerators/video/lumasteps.py
index 5c39ed1..04ac365 100644
--- a/mediagrains/patterngenerators/video/lumasteps.py
+++ b/mediagrains/patterngenerators/video/lumasteps.py
@@ -47,7 +47,7 @@ class LumaSteps(StillPatternGenerator):
 
         line = bytearray(width*_bpp)
         for x in range(0, width):
-            pos = x//(width//_steps)
+            pos = x*_steps//width
             if _bpp == 1:
                 line[x] = (_offset + ((pos * _range)//_steps)) & 0xFF
             elif _bpp == 2:
-- 
2.43.0


From ca0e13db9dcdb9fe587787f610923c7c0c1b6746 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:40 +0000
Subject: [PATCH 36/82] fix: give generated grains the duration which goes with
 their rate

---
 mediagrains/patterngenerators/audio/tone.py       | 1 +
 mediagrains/patterngenerators/video/colourbars.py | 1 +
 mediagrains/patterngenerators/video/lumasteps.py  | 1 +
 3 files changed, 3 insertions(+)

diff --git a/mediagrains/patterngenerators/audio/tone.py b/mediagrains/patterngenerators/audio/tone.py
index f0c38fe..e5afb52 100644
--- a/mediagrains/patterngenerators/audio/tone.py
+++ b/mediagrains/patterngenerators/audio/tone.py
@@ -174,6 +174,7 @@ class Tone(AudioPatternGenerator):
             samples=self.samples,
             channels=self.channels,
             rate=self.rate,
+            duration=1/self.rate,
             sample_rate=self.sample_rate)
 
         ag.data = bytearray(self._get_samples(offs)[:ag.expected_length])
diff --git a/mediagrains/patterngenerators/video/colourbars.py b/mediagrains/patterngenerators/video/colourbars.py
index e44edda..6c40981 100644
--- a/mediagrains/patterngenerators/video/colourbars.py
+++ b/mediagrains/patterngenerators/video/colourbars.py
@@ -48,6 +48,7 @@ class ColourBars(StillPatternGenerator):
         vg = VideoGrain(src_id=src_id,
                         flow_id=flow_id,
                         rate=rate,
+                        duration=1/Fraction(rate),
                         cog_frame_format=cog_frame_format,
                         cog_frame_layout=CogFrameLayout.FULL_FRAME,
                         width=width,
diff --git a/mediagrains/patterngenerators/video/lumasteps.py b/mediagrains/patterngenerators/video/lumasteps.py
index 04ac365..cf1c430 100644
--- a/mediagrains/patterngenerators/video/lumasteps.py
+++ b/mediagrains/patterngenerators/video/lumasteps.py
@@ -40,6 +40,7 @@ class LumaSteps(StillPatternGenerator):
         vg = VideoGrain(src_id=src_id,
                         flow_id=flow_id,
                         rate=rate,
+                        duration=1/Fraction(rate),
                         cog_frame_format=cog_frame_format,
                         cog_frame_layout=CogFrameLayout.FULL_FRAME,
                         width=width,
-- 
2.43.0


From aca21cf81b218b5b022b43af005e0b06ab4ff408 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:40 +0000
Subject: [PATCH 37/82] fix: generate video grains for integer counts

---
 mediagrains/patterngenerators/video/still.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mediagrains/patterngenerators/video/still.py b/mediagrains/patterngenerators/video/still.py
index fc3f7bc..3b98482 100644
--- a/mediagrains/patterngenerators/video/still.py
+++ b/mediagrains/patterngenerators/video/still.py
@@ -42,7 +42,7 @@ class StillPatternGenerator (VideoPatternGenerator):
 
         if tv == key:
             grain = deepcopy(self._template_grain)
-            grain.origin_timestamp = key.as_timestamp()
+            grain.origin_timestamp = tv.as_timestamp()
             grain.sync_timestamp = grain.origin_timestamp
             return grain
         else:
-- 
2.43.0


From ccad37518df203ebf4e60d3bbf9fee4c7abe76a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:40 +0000
Subject: [PATCH 38/82] fix: return the given default where a tone has no grain

---
 mediagrains/patterngenerators/audio/tone.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mediagrains/patterngenerators/audio/tone.py b/mediagrains/patterngenerators/audio/tone.py
index e5afb52..c9dc1e4 100644
--- a/mediagrains/patterngenerators/audio/tone.py
+++ b/mediagrains/patterngenerators/audio/tone.py
@@ -162,7 +162,7 @@ class Tone(AudioPatternGenerator):
         sample_count = tv.as_count()
 
         if sample_count % self.samples != 0:
-            return None
+            return default
 
         offs = sample_count % self.looplen
 
-- 
2.43.0


From 8c405bccd44bb54f61e3ea88a900317dfadddc2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:53 +0000
Subject: [PATCH 39/82] fix: generate tones of full volume

---
 mediagrains/patterngenerators/audio/tone.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/mediagrains/patterngenerators/audio/tone.py b/mediagrains/patterngenerators/audio/tone.py
index c9dc1e4..7fcb0ab 100644
--- a/mediagrains/patterngenerators/audio/tone.py
+++ b/mediagrains/patterngenerators/audio/tone.py
@@ -90,17 +90,20 @@ class Tone(AudioPatternGenerator):
             if self.cog_audio_format in [CogAudioFormat.S16_PLANES,
                                          CogAudioFormat.S16_PAIRS,
                                          CogAudioFormat.S16_INTERLEAVED]:
-                formatted_sample_data = [round(x*self.volume*(1 << 15)) for x in self._sample_values]
+                formatted_sample_data = [
+                    min(round(x*self.volume*(1 << 15)), (1 << 15) - 1) for x in self._sample_values]
                 depth = 16
             elif self.cog_audio_format in [CogAudioFormat.S24_PLANES,
                                            CogAudioFormat.S24_PAIRS,
                                            CogAudioFormat.S24_INTERLEAVED]:
-                formatted_sample_data = [round(x*self.volume*(1 << 23)) for x in self._sample_values]
+                formatted_sample_data = [
+                    min(round(x*self.volume*(1 << 23)), (1 << 23) - 1) for x in self._sample_values]
                 depth = 24
             elif self.cog_audio_format in [CogAudioFormat.S32_PLANES,
                                            CogAudioFormat.S32_PAIRS,
                                            CogAudioFormat.S32_INTERLEAVED]:
-                formatted_sample_data = [round(x*self.volume*(1 << 31)) for x in self._sample_values]
+                formatted_sample_data = [
+                    min(round(x*self.volume*(1 << 31)), (1 << 31) - 1) for x in self._sample_values]
                 depth = 32
             elif self.cog_audio_format in [CogAudioFormat.FLOAT_PLANES,
                                            CogAudioFormat.FLOAT_PAIRS,
-- 
2.43.0


From 78513458f70307981513bc880901bd8ab97167cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:53 +0000
Subject: [PATCH 40/82] fix: generate tones with an odd number of channels in
 pairs

---
 mediagrains/patterngenerators/audio/tone.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/mediagrains/patterngenerators/audio/tone.py b/mediagrains/patterngenerators/audio/tone.py
index 7fcb0ab..1455146 100644
--- a/mediagrains/patterngenerators/audio/tone.py
+++ b/mediagrains/patterngenerators/audio/tone.py
@@ -143,20 +143,20 @@ class Tone(AudioPatternGenerator):
             if planes:
                 line = line * self.channels
             elif pairs:
-                line = [x for x in line for _ in range(0, 2)] * (self.channels//2)
+                line = [x for x in line for _ in range(0, 2)] * ((self.channels + 1)//2)
             elif interleaved:
                 line = [x for x in line for _ in range(0, self.channels)]
 
             if depth == 16:
-                self.data_samples[offs] = struct.pack('@' + ('h'*self.samples*self.channels), *line)
+                self.data_samples[offs] = struct.pack('@' + ('h'*len(line)), *line)
             elif depth == 24:
                 self.data_samples[offs] = b''.join(struct.pack('@i', x)[:3] for x in line)
             elif depth == 32:
-                self.data_samples[offs] = struct.pack('@' + ('i'*self.samples*self.channels), *line)
+                self.data_samples[offs] = struct.pack('@' + ('i'*len(line)), *line)
             elif depth == 'f':
-                self.data_samples[offs] = struct.pack('@' + ('f'*self.samples*self.channels), *line)
+                self.data_samples[offs] = struct.pack('@' + ('f'*len(line)), *line)
             elif depth == 'd':
-                self.data_samples[offs] = struct.pack('@' + ('d'*self.samples*self.channels), *line)
+                self.data_samples[offs] = struct.pack('@' + ('d'*len(line)), *line)
 
         return self.data_samples[offs]
 
-- 
2.43.0


From 54b64a59e5c2586081c0d67db20be9d20f3a43e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:53 +0000
Subject: [PATCH 41/82] fix: generate tones of 24 bit samples in planes

---
 mediagrains/patterngenerators/audio/tone.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mediagrains/patterngenerators/audio/tone.py b/mediagrains/patterngenerators/audio/tone.py
index 1455146..284a440 100644
--- a/mediagrains/patterngenerators/audio/tone.py
+++ b/mediagrains/patterngenerators/audio/tone.py
@@ -150,7 +150,8 @@ class Tone(AudioPatternGenerator):
             if depth == 16:
                 self.data_samples[offs] = struct.pack('@' + ('h'*len(line)), *line)
             elif depth == 24:
-                self.data_samples[offs] = b''.join(struct.pack('@i', x)[:3] for x in line)
+                # samples in planes take up 32 bits each
+                self.data_samples[offs] = b''.join(struct.pack('@i', x)[:4 if planes else 3] for x in line)
             elif depth == 32:
                 self.data_samples[offs] = struct.pack('@' + ('i'*len(line)), *line)
             elif depth == 'f':
-- 
2.43.0


From bb49799cae82d4b1d5d3f8b40d6e3482fbcda03f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:06 +0000
Subject: [PATCH 42/82] fix: generate grains for anything which supports media
 time ranges

---
 mediagrains/patterngenerators/abc.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/mediagrains/patterngenerators/abc.py b/mediagrains/patterngenerators/abc.py
index bbe260d..c75a8da 100644
--- a/mediagrains/patterngenerators/abc.py
+++ b/mediagrains/patterngenerators/abc.py
@@ -30,7 +30,8 @@ from mediatimestamp import (
     SupportsMediaTimestamp,
     TimeRange,
     CountRange,
-    SupportsMediaTimeRange)
+    SupportsMediaTimeRange,
+    mediatimerange)
 
 from mediagrains.grains.Grain import Grain
 
@@ -87,7 +88,7 @@ class PatternGenerator (Generic[G], metaclass=ABCMeta):
         elif isinstance(key, (Timestamp, TimeOffset, int, SupportsMediaTimeOffset, SupportsMediaTimestamp)):
             val = TimeValue(key)
         elif isinstance(key, SupportsMediaTimeRange):
-            rng = TimeValueRange(key)
+            rng = TimeValueRange(mediatimerange(key))
         else:
             raise ValueError(f"Invalid key: {key!r}")
 
-- 
2.43.0


From a5bb808c89f47e1da738c2aeab6a8ff11975e7c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:25 +0000
Subject: [PATCH 43/82] fix: load all grains on exit even if the data of one of
 them can't be

---
 mediagrains/gsf.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/mediagrains/gsf.py b/mediagrains/gsf.py
index 17d363c..da28904 100644
--- a/mediagrains/gsf.py
+++ b/mediagrains/gsf.py
@@ -1145,8 +1145,15 @@ class GSFAsyncDecoderSession(BaseGSFDecoderSession):
     async def _kill_unused_lazy_loaders(self):
         async with self._file_lock:
             self._exiting = True
+        error = None
         for (key, grain) in list(self._unloaded_lazy_grains.items()):
-            await grain
+            try:
+                await grain
+            except Exception as e:
+                # The other grains still have to be loaded
+                error = error or e
+        if error is not None:
+            raise error
 
     async def _load_unused_lazy_loaders(self):
         for (key, grain) in list(self._unloaded_lazy_grains.items()):
-- 
2.43.0


From a52c35bee79c1b9ccab4fc373dad5ce42a0562c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:25 +0000
Subject: [PATCH 44/82] fix: close the input even if grains can't be loaded on
 exit

---
 mediagrains/gsf.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/mediagrains/gsf.py b/mediagrains/gsf.py
index da28904..2388820 100644
--- a/mediagrains/gsf.py
+++ b/mediagrains/gsf.py
@@ -1505,13 +1505,15 @@ class GSFDecoder(object):
         return self._open_asession
 
     async def __aexit__(self, *args, **kwargs):
-        if self._open_asession is not None:
-            await self._open_asession._kill_unused_lazy_loaders()
+        try:
+            if self._open_asession is not None:
+                await self._open_asession._kill_unused_lazy_loaders()
+        finally:
             self._open_asession = None
 
-        if self._open_afile is not None and self._afile_data is not None:
-            await self._afile_data.__aexit__(*args, **kwargs)
-            self._open_afile = None
+            if self._open_afile is not None and self._afile_data is not None:
+                await self._afile_data.__aexit__(*args, **kwargs)
+                self._open_afile = None
 
     @deprecated(version="2.7.0", reason="This method is old, use the class as a context manager instead")
     def decode_file_headers(self) -> GSFFileHeaderDict:
-- 
2.43.0


From 5ca3ee706d52bd89c8c6ebba3c764ee94a748274 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:40 +0000
Subject: [PATCH 45/82] fix: close the input of a decoder session that fails or
 is cancelled

A session which could not be begun (no valid file, a read error, cancellation) left the file it had opened
open, and a cancelled end of a session closed it while grains were still being read.
---
 mediagrains/gsf.py | 52 ++++++++++++++++++++++++++++++++++++----------
 1 file changed, 41 insertions(+), 11 deletions(-)

diff --git a/mediagrains/gsf.py b/mediagrains/gsf.py
index 2388820..0176c19 100644
--- a/mediagrains/gsf.py
+++ b/mediagrains/gsf.py
@@ -27,7 +27,7 @@ from datetime import datetime, timezone
 from io import BytesIO, RawIOBase, BufferedIOBase, UnsupportedOperation
 from mediatimestamp.immutable import Timestamp
 from fractions import Fraction
-from asyncio import Lock, shield
+from asyncio import CancelledError, ensure_future, wait, Lock, shield
 from frozendict import frozendict
 from .utils import IOBytes
 from os import SEEK_SET, SEEK_CUR
@@ -1092,6 +1092,7 @@ class GSFAsyncDecoderSession(BaseGSFDecoderSession):
         self.file_headers: Optional[GSFFileHeaderDict] = None
 
         self._exiting = False
+        self._closed = False
         self._unloaded_lazy_grains: Dict[int, Grain] = {}
         # Held while reading, so that tasks which share the file don't move each other's file position
         self._file_lock = Lock()
@@ -1155,6 +1156,11 @@ class GSFAsyncDecoderSession(BaseGSFDecoderSession):
         if error is not None:
             raise error
 
+    async def _close(self, close_file: bool):
+        """Wait until nothing is being read any more. If the file is going to be closed nothing will be from now on."""
+        async with self._file_lock:
+            self._closed = close_file
+
     async def _load_unused_lazy_loaders(self):
         for (key, grain) in list(self._unloaded_lazy_grains.items()):
             await grain
@@ -1204,6 +1210,10 @@ class GSFAsyncDecoderSession(BaseGSFDecoderSession):
                                      load_on_exit=False) -> Optional[bytes]:
             if load_on_exit or not parent._exiting:
                 async with parent._file_lock:
+                    if parent._closed:
+                        if load_on_exit:
+                            raise GSFDecodeError("The file was closed before the data of a grain had been loaded", pos)
+                        return None
                     oldpos = file_data.tell()
                     try:
                         file_data.seek(pos)
@@ -1421,6 +1431,16 @@ class GSFSyncDecoderSession(BaseGSFDecoderSession):
                 return  # We ran out of grains to read and hit EOF
 
 
+async def _to_the_end(closing: Awaitable[None]) -> None:
+    """Wait for something to be closed, which is not left half done when the task that waits for it is cancelled"""
+    task = ensure_future(closing)
+    try:
+        await shield(task)
+    except CancelledError:
+        await wait((task,))
+        raise
+
+
 class GSFDecoder(object):
     """A decoder for GSF format.
 
@@ -1497,11 +1517,16 @@ class GSFDecoder(object):
                 raise TypeError(
                     "file_data must be an asynchronous binary file to use this class as an async context manager")
 
-        self._open_asession = GSFAsyncDecoderSession(file_data=self._open_afile,
-                                                     parse_grain=self.Grain,
-                                                     sync_compatibility_mode=self._sync_compatibility_mode,
-                                                     support_concatenation=self._support_concatenation)
-        await self._open_asession._decode_file_headers()
+        try:
+            self._open_asession = GSFAsyncDecoderSession(file_data=self._open_afile,
+                                                         parse_grain=self.Grain,
+                                                         sync_compatibility_mode=self._sync_compatibility_mode,
+                                                         support_concatenation=self._support_concatenation)
+            await self._open_asession._decode_file_headers()
+        except BaseException as e:
+            # There is no session, so __aexit__ isn't going to be called
+            await _to_the_end(self._close_asession(type(e), e, e.__traceback__))
+            raise
         return self._open_asession
 
     async def __aexit__(self, *args, **kwargs):
@@ -1509,11 +1534,16 @@ class GSFDecoder(object):
             if self._open_asession is not None:
                 await self._open_asession._kill_unused_lazy_loaders()
         finally:
-            self._open_asession = None
-
-            if self._open_afile is not None and self._afile_data is not None:
-                await self._afile_data.__aexit__(*args, **kwargs)
-                self._open_afile = None
+            await _to_the_end(self._close_asession(*args, **kwargs))
+
+    async def _close_asession(self, *args, **kwargs):
+        session, self._open_asession = self._open_asession, None
+        close_file = self._open_afile is not None and self._afile_data is not None
+        if session is not None:
+            await session._close(close_file)
+        if close_file:
+            self._open_afile = None
+            await self._afile_data.__aexit__(*args, **kwargs)
 
     @deprecated(version="2.7.0", reason="This method is old, use the class as a context manager instead")
     def decode_file_headers(self) -> GSFFileHeaderDict:
-- 
2.43.0


From e587ebbeb1301a32f3b91d44ca84d9bd1b4608db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:40 +0000
Subject: [PATCH 46/82] fix: close the file an encoder has opened, however the
 dump ends

A dump to a file which the encoder opens itself never closed it, and after a dump that failed the encoder
remained in it: grains added later were refused or lost.
---
 mediagrains/gsf.py | 66 ++++++++++++++++++++++++++++++++++++----------
 1 file changed, 52 insertions(+), 14 deletions(-)

diff --git a/mediagrains/gsf.py b/mediagrains/gsf.py
index 0176c19..e276c30 100644
--- a/mediagrains/gsf.py
+++ b/mediagrains/gsf.py
@@ -2083,6 +2083,13 @@ class OpenAsyncGSFEncoder(OpenGSFEncoderBase):
 
             self._active_dump = False
 
+    async def _close_file(self, *args, **kwargs) -> None:
+        async with self._lock:
+            self._active_dump = False
+            if self.file is not None and self._open_file is not None:
+                self._open_file = None
+                await self.file.__aexit__(*args, **kwargs)
+
 
 class SegmentDict(TypedDict, total=False):
     id: UUID
@@ -2178,16 +2185,28 @@ class GSFEncoder(object):
                                             self.streaming,
                                             self._next_local)
         if self.streaming:
-            self._open_encoder._start_dump(all_at_once=False)
+            try:
+                self._open_encoder._start_dump(all_at_once=False)
+            except BaseException:
+                # There is no dump, so __exit__ isn't going to be called
+                self._close_encoder()
+                raise
         return self._open_encoder
 
     def __exit__(self, *args, **kwargs):
         if self._open_encoder is not None:
-            if not self.streaming:
-                self._open_encoder._start_dump(all_at_once=True)
-            self._open_encoder._end_dump()
-            self._next_local = self._open_encoder._next_local
-            self._open_encoder = None
+            try:
+                if not self.streaming:
+                    self._open_encoder._start_dump(all_at_once=True)
+                self._open_encoder._end_dump()
+            finally:
+                self._close_encoder()
+
+    def _close_encoder(self):
+        # Segments which were added through it stay attached to it
+        self._open_encoder._active_dump = False
+        self._next_local = self._open_encoder._next_local
+        self._open_encoder = None
 
     async def __aenter__(self):
         if not isinstance(self.file, AsyncBinaryIO) and not isinstance(self.file, OpenAsyncBinaryIO):
@@ -2204,14 +2223,27 @@ class GSFEncoder(object):
                                                        self.streaming,
                                                        self._next_local)
         if self.streaming:
-            await self._open_async_encoder._start_dump(all_at_once=False)
+            try:
+                await self._open_async_encoder._start_dump(all_at_once=False)
+            except BaseException as e:
+                # There is no dump, so __aexit__ isn't going to be called
+                await _to_the_end(self._close_async_encoder(type(e), e, e.__traceback__))
+                raise
         return self._open_async_encoder
 
     async def __aexit__(self, *args, **kwargs):
         if self._open_async_encoder is not None:
-            if not self.streaming:
-                await self._open_async_encoder._start_dump(all_at_once=True)
-            await self._open_async_encoder._end_dump()
+            try:
+                if not self.streaming:
+                    await self._open_async_encoder._start_dump(all_at_once=True)
+                await self._open_async_encoder._end_dump()
+            finally:
+                await _to_the_end(self._close_async_encoder(*args, **kwargs))
+
+    async def _close_async_encoder(self, *args, **kwargs):
+        try:
+            await self._open_async_encoder._close_file(*args, **kwargs)
+        finally:
             self._next_local = self._open_async_encoder._next_local
             self._open_async_encoder = None
 
@@ -2312,16 +2344,22 @@ class GSFEncoder(object):
                                             self._segments,
                                             self.streaming,
                                             self._next_local)
-        self._open_encoder._start_dump(all_at_once=all_at_once)
+        try:
+            self._open_encoder._start_dump(all_at_once=all_at_once)
+        except BaseException:
+            # There is no dump to be ended
+            self._close_encoder()
+            raise
 
     @deprecated(version="2.7.0", reason="This mechanism is deprecated, use a context manager instead")
     def end_dump(self, all_at_once=False):
         """End the current dump to the file. In a seakable stream this will write
         all segment counts, in a non-seakable stream it will not."""
         if self._open_encoder is not None:
-            self._open_encoder._end_dump()
-            self._next_local = self._open_encoder._next_local
-            self._open_encoder = None
+            try:
+                self._open_encoder._end_dump()
+            finally:
+                self._close_encoder()
 
 
 class GSFEncoderFlow(NamedTuple):
-- 
2.43.0


From 8a72d054228c715fb98cbbc14e936509f80e9aa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:55 +0000
Subject: [PATCH 47/82] fix: time label lists: slices of absent lists, own
 labels, labels which are handed in

Slices of an absent list raised IndexError, a slice couldn't be assigned at all, assigning a grain's time
labels to themselves emptied them and extending them by themselves never ended. A label which was put in the
list shared its values with the caller's, and defaults were filled in there.
---
 mediagrains/grains/Grain.py | 31 +++++++++++++++++++++----------
 1 file changed, 21 insertions(+), 10 deletions(-)

diff --git a/mediagrains/grains/Grain.py b/mediagrains/grains/Grain.py
index 9f2dfd4..1e5e681 100644
--- a/mediagrains/grains/Grain.py
+++ b/mediagrains/grains/Grain.py
@@ -560,8 +560,9 @@ media_rate
 
     @timelabels.setter
     def timelabels(self, value: "Union[List[Grain.TIMELABEL], Grain.TIMELABELS]") -> None:
+        values = list(value)  # These may be the present labels of this grain
         cast(EmptyGrainMetadataDict, self.meta)['grain']['timelabels'] = []
-        for x in value:
+        for x in values:
             self.timelabels.append(x)
 
     def add_timelabel(self, tag: str, count: int, rate: Fraction, drop_frame: bool = False) -> None:
@@ -658,9 +659,9 @@ media_rate
         def __getitem__(self, key: slice) -> "List[Grain.TIMELABEL]": ...
 
         def __getitem__(self, key):  # noqa: F811
-            if 'timelabels' not in self.parent.meta['grain']:
-                raise IndexError("list index out of range")
             if isinstance(key, int):
+                if 'timelabels' not in self.parent.meta['grain']:
+                    raise IndexError("list index out of range")
                 return Grain.TIMELABEL(self.parent.meta['grain']['timelabels'][key])
             else:
                 return [Grain.TIMELABEL(self.parent.meta['grain']['timelabels'][n]) for n in range(len(self))[key]]
@@ -672,17 +673,18 @@ media_rate
         def __setitem__(self, key: slice, value: "Iterable[Grain.TIMELABEL.GrainMetadataDict]") -> None: ...
 
         def __setitem__(self, key, value):  # noqa: F811
-            if 'timelabels' not in self.parent.meta['grain']:
-                raise IndexError("list assignment index out of range")
             if isinstance(key, int):
-                self.parent.meta['grain']['timelabels'][key] = dict(Grain.TIMELABEL(value))
+                if 'timelabels' not in self.parent.meta['grain']:
+                    raise IndexError("list assignment index out of range")
+                self.parent.meta['grain']['timelabels'][key] = self._new_label(value)
             else:
-                values = iter(value)
-                for n in key:
-                    self.parent.meta['grain']['timelabels'][n] = dict(Grain.TIMELABEL(next(values)))
+                labels = [self._new_label(v) for v in value]
+                cast(EmptyGrainMetadataDict, self.parent.meta)['grain'].setdefault('timelabels', [])[key] = labels
 
         def __delitem__(self, key: Union[int, slice]) -> None:
             if 'timelabels' not in self.parent.meta['grain']:
+                if isinstance(key, slice):
+                    return
                 raise IndexError("list assignment index out of range")
 
             del self.parent.meta['grain']['timelabels'][key]
@@ -692,7 +694,16 @@ media_rate
         def insert(self, key: int, value: "Grain.TIMELABEL.GrainMetadataDict") -> None:
             if 'timelabels' not in self.parent.meta['grain']:
                 cast(EmptyGrainMetadataDict, self.parent.meta)['grain']['timelabels'] = []
-            self.parent.meta['grain']['timelabels'].insert(key, cast(TimeLabel, dict(Grain.TIMELABEL(value))))
+            self.parent.meta['grain']['timelabels'].insert(key, self._new_label(value))
+
+        def extend(self, values: "Iterable[Grain.TIMELABEL.GrainMetadataDict]") -> None:
+            # The values may be the labels of this very grain
+            super().extend(list(values))
+
+        @staticmethod
+        def _new_label(value: "Grain.TIMELABEL.GrainMetadataDict") -> TimeLabel:
+            # A label of its own, which shares nothing with the value
+            return cast(TimeLabel, dict(Grain.TIMELABEL(deepcopy(dict(value)))))
 
         def __len__(self) -> int:
             if 'timelabels' not in self.parent.meta['grain']:
-- 
2.43.0


From 83f3fe6ae13336816816f1a6e580d3310435f12c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:55 +0000
Subject: [PATCH 48/82] fix: keep video components as plain dictionaries in the
 metadata

COMPONENT objects could not be serialised, and later changes of an object that had been handed in changed the
grain. Slices of other lengths could not be assigned.
---
 mediagrains/grains/VideoGrain.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/mediagrains/grains/VideoGrain.py b/mediagrains/grains/VideoGrain.py
index 340b3d3..e4c3af6 100644
--- a/mediagrains/grains/VideoGrain.py
+++ b/mediagrains/grains/VideoGrain.py
@@ -223,18 +223,20 @@ length
 
         def __setitem__(self, key, value):  # noqa: F811
             if isinstance(key, int):
-                self.parent.meta['grain']['cog_frame']['components'][key] = type(self.parent).COMPONENT(value)
+                self.parent.meta['grain']['cog_frame']['components'][key] = self._new_component(value)
             else:
-                values = iter(value)
-                for n in range(len(self))[key]:
-                    self.parent.meta['grain']['cog_frame']['components'][n] = type(self.parent).COMPONENT(next(values))
+                self.parent.meta['grain']['cog_frame']['components'][key] = [self._new_component(v) for v in value]
 
         def __delitem__(self, key: Union[int, slice]) -> None:
             del self.parent.meta['grain']['cog_frame']['components'][key]
 
         def insert(self, key: int, value: VideoGrainComponentDict) -> None:
-            self.parent.meta['grain']['cog_frame']['components'].insert(
-                key, type(self.parent).COMPONENT(value))  # type: ignore
+            self.parent.meta['grain']['cog_frame']['components'].insert(key, self._new_component(value))
+
+        @staticmethod
+        def _new_component(value: VideoGrainComponentDict) -> VideoGrainComponentDict:
+            # The metadata holds plain dictionaries, which share nothing with the value
+            return cast(VideoGrainComponentDict, dict(value))
 
         def __len__(self) -> int:
             return len(self.parent.meta['grain']['cog_frame']['components'])
-- 
2.43.0


From 88cacc3692754423a27f001cdf43386a3c5b5544 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:55 +0000
Subject: [PATCH 49/82] fix: slices of absent unit offsets, and extending unit
 offsets by themselves

---
 mediagrains/grains/CodedVideoGrain.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/mediagrains/grains/CodedVideoGrain.py b/mediagrains/grains/CodedVideoGrain.py
index b45e5a7..24c6066 100644
--- a/mediagrains/grains/CodedVideoGrain.py
+++ b/mediagrains/grains/CodedVideoGrain.py
@@ -344,10 +344,7 @@ unit_offsets
         def __getitem__(self, key: slice) -> List[int]: ...
 
         def __getitem__(self, key):  # noqa: F811
-            if 'unit_offsets' in self.parent.meta['grain']['cog_coded_frame']:
-                return self.parent.meta['grain']['cog_coded_frame']['unit_offsets'][key]
-            else:
-                raise IndexError("list index out of range")
+            return self.parent.meta['grain']['cog_coded_frame'].get('unit_offsets', [])[key]
 
         @overload
         def __setitem__(self, key: int, value: int) -> None: ...
@@ -358,6 +355,8 @@ unit_offsets
         def __setitem__(self, key, value):  # noqa: F811
             if 'unit_offsets' in self.parent.meta['grain']['cog_coded_frame']:
                 self.parent.meta['grain']['cog_coded_frame']['unit_offsets'][key] = value
+            elif isinstance(key, slice):
+                self.parent.unit_offsets = value
             else:
                 raise IndexError("list assignment index out of range")
 
@@ -366,7 +365,7 @@ unit_offsets
                 del cast(List[int], self.parent.meta['grain']['cog_coded_frame']['unit_offsets'])[key]
                 if len(self.parent.meta['grain']['cog_coded_frame']['unit_offsets']) == 0:
                     del self.parent.meta['grain']['cog_coded_frame']['unit_offsets']
-            else:
+            elif not isinstance(key, slice):
                 raise IndexError("list assignment index out of range")
 
         def insert(self, key: int, value: int) -> None:
@@ -377,6 +376,10 @@ unit_offsets
             else:
                 cast(List[int], self.parent.meta['grain']['cog_coded_frame']['unit_offsets']).insert(key, value)
 
+        def extend(self, values: Iterable[int]) -> None:
+            # The values may be the offsets of this very grain
+            super().extend(list(values))
+
         def __len__(self) -> int:
             if 'unit_offsets' in self.parent.meta['grain']['cog_coded_frame']:
                 return len(self.parent.meta['grain']['cog_coded_frame']['unit_offsets'])
-- 
2.43.0


From 653bbc9de0a6f7a965bdf57dd679e2220cb09626 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:55 +0000
Subject: [PATCH 50/82] fix: let an absent pre value of an event datum be set
 to None, as post can be

---
 mediagrains/grains/EventGrain.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mediagrains/grains/EventGrain.py b/mediagrains/grains/EventGrain.py
index 0b43bef..90596bc 100644
--- a/mediagrains/grains/EventGrain.py
+++ b/mediagrains/grains/EventGrain.py
@@ -296,7 +296,7 @@ post
         def pre(self, value: Optional[MediaJSONSerialisable]) -> None:
             if value is not None:
                 self.meta['pre'] = value
-            else:
+            elif 'pre' in self.meta:
                 del self.meta['pre']
 
         @property
-- 
2.43.0


From 896d55e9af4db28cbe502eebc826373e61d5be6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:55 +0000
Subject: [PATCH 51/82] fix: timestamps of grains whose rate is zero

A rate of zero means that there is no rate: media_rate treats it so, but the presentation timestamps of coded
video and the final timestamps of audio grains divided by it.
---
 mediagrains/grains/AudioGrain.py      | 2 ++
 mediagrains/grains/CodedAudioGrain.py | 2 ++
 mediagrains/grains/CodedVideoGrain.py | 6 +++---
 3 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/mediagrains/grains/AudioGrain.py b/mediagrains/grains/AudioGrain.py
index f3f588f..3f49a09 100644
--- a/mediagrains/grains/AudioGrain.py
+++ b/mediagrains/grains/AudioGrain.py
@@ -174,6 +174,8 @@ sample_rate
         self.meta['grain']['cog_audio']['format'] = int(self.meta['grain']['cog_audio']['format'])
 
     def final_origin_timestamp(self) -> Timestamp:
+        if not self.sample_rate:
+            return self.origin_timestamp
         return (self.origin_timestamp + TimeOffset.from_count(self.samples - 1, self.sample_rate, 1))
 
     @property
diff --git a/mediagrains/grains/CodedAudioGrain.py b/mediagrains/grains/CodedAudioGrain.py
index b60caaa..72a170d 100644
--- a/mediagrains/grains/CodedAudioGrain.py
+++ b/mediagrains/grains/CodedAudioGrain.py
@@ -179,6 +179,8 @@ remainder
         self.meta['grain']['cog_coded_audio']['format'] = int(self.meta['grain']['cog_coded_audio']['format'])
 
     def final_origin_timestamp(self) -> Timestamp:
+        if not self.sample_rate:
+            return self.origin_timestamp
         return (self.origin_timestamp + TimeOffset.from_count(self.samples - 1, self.sample_rate, 1))
 
     @property
diff --git a/mediagrains/grains/CodedVideoGrain.py b/mediagrains/grains/CodedVideoGrain.py
index 24c6066..7a8a144 100644
--- a/mediagrains/grains/CodedVideoGrain.py
+++ b/mediagrains/grains/CodedVideoGrain.py
@@ -418,20 +418,20 @@ unit_offsets
 
     @property
     def presentation_origin_timestamp(self) -> Timestamp:
-        if self.rate is not None and self.temporal_offset is not None:
+        if self.rate and self.temporal_offset is not None:
             return self.origin_timestamp + Timestamp.from_count(self.temporal_offset, self.rate)
         else:
             return self.origin_timestamp
 
     def final_presentation_origin_timestamp(self) -> Timestamp:
-        if self.rate is not None and self.temporal_offset is not None:
+        if self.rate and self.temporal_offset is not None:
             return self.final_origin_timestamp() + Timestamp.from_count(self.temporal_offset, self.rate)
         else:
             return self.final_origin_timestamp()
 
     def presentation_origin_timerange(self) -> TimeRange:
         origin_tr = self.origin_timerange()
-        if self.rate is not None and self.temporal_offset is not None:
+        if self.rate and self.temporal_offset is not None:
             if origin_tr.start is not None:
                 start = origin_tr.start + Timestamp.from_count(self.temporal_offset, self.rate)
             else:
-- 
2.43.0


From 37a4979e4b1d64e1b380f0d88d93b6656282b40d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:15 +0000
Subject: [PATCH 52/82] fix: numpy grains of data which can be turned into
 bytes only

The data of grains decoded with deferred loading (IOBytes) has no buffer, so numpy grains could not be made of it.
---
 mediagrains/numpy/numpy_grains/AudioGrain.py | 5 +++--
 mediagrains/numpy/numpy_grains/VideoGrain.py | 5 +++--
 mediagrains/numpy/numpy_grains/_data.py      | 8 ++++++++
 3 files changed, 14 insertions(+), 4 deletions(-)
 create mode 100644 mediagrains/numpy/numpy_grains/_data.py

diff --git a/mediagrains/numpy/numpy_grains/AudioGrain.py b/mediagrains/numpy/numpy_grains/AudioGrain.py
index 31293e4..a3e246d 100644
--- a/mediagrains/numpy/numpy_grains/AudioGrain.py
+++ b/mediagrains/numpy/numpy_grains/AudioGrain.py
@@ -12,6 +12,7 @@ from numpy.lib.stride_tricks import as_strided
 from mediatimestamp.immutable import SupportsMediaTimestamp
 import mediagrains.grains as bytesgrain
 
+from ._data import array_from_data
 from ...cogenums import (
     CogAudioFormat,
     COG_AUDIO_IS_INT,
@@ -141,7 +142,7 @@ class AudioGrain (bytesgrain.AudioGrain):
         self.channel_data: List[np.ndarray]
 
         if self._data is not None:
-            self._data = np.frombuffer(self._data, dtype=_dtype_from_cogaudioformat(self.format))
+            self._data = array_from_data(self._data, _dtype_from_cogaudioformat(self.format))
         if self._data is not None:
             self.channel_data = _channel_arrays_for_data_and_type(
                 self._data, self.format, self.samples, self.channels
@@ -176,7 +177,7 @@ class AudioGrain (bytesgrain.AudioGrain):
             self.channel_data = []
         else:
             self._data_fetcher_coroutine = None
-            self._data = np.frombuffer(cast(bytes, value), dtype=_dtype_from_cogaudioformat(self.format))
+            self._data = array_from_data(value, _dtype_from_cogaudioformat(self.format))
             self.channel_data = _channel_arrays_for_data_and_type(
                 self._data, self.format, self.samples, self.channels
             )
diff --git a/mediagrains/numpy/numpy_grains/VideoGrain.py b/mediagrains/numpy/numpy_grains/VideoGrain.py
index 4c7c0ac..9897273 100644
--- a/mediagrains/numpy/numpy_grains/VideoGrain.py
+++ b/mediagrains/numpy/numpy_grains/VideoGrain.py
@@ -12,6 +12,7 @@ import numpy as np
 from numpy.lib.stride_tricks import as_strided
 
 from typing import Callable, Dict, Tuple, Optional, Awaitable, cast
+from ._data import array_from_data
 from ...typing import VideoGrainMetadataDict, GrainDataType, GrainDataParameterType
 
 from inspect import isawaitable
@@ -255,7 +256,7 @@ class VideoGrain (bytesgrain.VideoGrain):
         self.component_data: ComponentDataList
 
         if self._data is not None:
-            self._data = np.frombuffer(self._data, dtype=_dtype_from_cogframeformat(self.cog_frame_format))
+            self._data = array_from_data(self._data, _dtype_from_cogframeformat(self.cog_frame_format))
             self.component_data = ComponentDataList(
                 _component_arrays_for_data_and_type(self._data, self.cog_frame_format, self.components),
                 arrangement=_component_arrangement_from_format(self.cog_frame_format))
@@ -288,7 +289,7 @@ class VideoGrain (bytesgrain.VideoGrain):
             self.component_data = ComponentDataList([])
         else:
             self._data_fetcher_coroutine = None
-            self._data = np.frombuffer(cast(bytes, value), dtype=_dtype_from_cogframeformat(self.cog_frame_format))
+            self._data = array_from_data(value, _dtype_from_cogframeformat(self.cog_frame_format))
             self.component_data = ComponentDataList(
                 _component_arrays_for_data_and_type(self._data, self.cog_frame_format, self.components),
                 arrangement=_component_arrangement_from_format(self.cog_frame_format))
diff --git a/mediagrains/numpy/numpy_grains/_data.py b/mediagrains/numpy/numpy_grains/_data.py
new file mode 100644
index 0000000..d83f58f
--- /dev/null
+++ b/mediagrains/numpy/numpy_grains/_data.py
@@ -0,0 +1,8 @@
+import numpy as np
+
+
+def array_from_data(data, dtype: np.dtype) -> np.ndarray:
+    """An array of the given type holding a grain's data element, without copying it where that is possible"""
+    if not isinstance(data, (bytes, bytearray, memoryview, np.ndarray)):
+        data = bytes(data)
+    return np.frombuffer(data, dtype=dtype)
-- 
2.43.0


From d2ad7e26510bc1d6849d6514cace937b067625c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:15 +0000
Subject: [PATCH 53/82] fix: let the data of numpy grains be set to None

---
 mediagrains/numpy/numpy_grains/AudioGrain.py | 4 ++++
 mediagrains/numpy/numpy_grains/VideoGrain.py | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/mediagrains/numpy/numpy_grains/AudioGrain.py b/mediagrains/numpy/numpy_grains/AudioGrain.py
index a3e246d..e000a71 100644
--- a/mediagrains/numpy/numpy_grains/AudioGrain.py
+++ b/mediagrains/numpy/numpy_grains/AudioGrain.py
@@ -177,6 +177,10 @@ class AudioGrain (bytesgrain.AudioGrain):
             self.channel_data = []
         else:
             self._data_fetcher_coroutine = None
+            if value is None:
+                self._data = None
+                self.channel_data = []
+                return
             self._data = array_from_data(value, _dtype_from_cogaudioformat(self.format))
             self.channel_data = _channel_arrays_for_data_and_type(
                 self._data, self.format, self.samples, self.channels
diff --git a/mediagrains/numpy/numpy_grains/VideoGrain.py b/mediagrains/numpy/numpy_grains/VideoGrain.py
index 9897273..7d05de8 100644
--- a/mediagrains/numpy/numpy_grains/VideoGrain.py
+++ b/mediagrains/numpy/numpy_grains/VideoGrain.py
@@ -289,6 +289,10 @@ class VideoGrain (bytesgrain.VideoGrain):
             self.component_data = ComponentDataList([])
         else:
             self._data_fetcher_coroutine = None
+            if value is None:
+                self._data = None
+                self.component_data = ComponentDataList([])
+                return
             self._data = array_from_data(value, _dtype_from_cogframeformat(self.cog_frame_format))
             self.component_data = ComponentDataList(
                 _component_arrays_for_data_and_type(self._data, self.cog_frame_format, self.components),
-- 
2.43.0


From 36f294a36700c6a9f5789ddd9ee06c7461575222 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:15 +0000
Subject: [PATCH 54/82] fix: copies of grains without data, of event grains and
 of memory views

The copy of a grain without data had made-up data, copying an event grain rewrote the payload in the metadata it
shares with the original (and in another order), and the data of a grain given as memoryview couldn't be deep
copied.
---
 mediagrains/grains/EventGrain.py             |  4 ++++
 mediagrains/grains/Grain.py                  | 14 ++++++++++++--
 mediagrains/numpy/numpy_grains/AudioGrain.py | 12 +++++++++---
 mediagrains/numpy/numpy_grains/VideoGrain.py | 12 +++++++++---
 4 files changed, 34 insertions(+), 8 deletions(-)

diff --git a/mediagrains/grains/EventGrain.py b/mediagrains/grains/EventGrain.py
index 90596bc..a1786aa 100644
--- a/mediagrains/grains/EventGrain.py
+++ b/mediagrains/grains/EventGrain.py
@@ -211,6 +211,10 @@ append(path, pre=None, post=None)
         if value is not None:
             self.data = bytes(value)
 
+    def _copy(self, meta: EventGrainMetadataDict, data: Optional[GrainDataType]) -> "EventGrain":
+        # The payload is in the metadata
+        return EventGrain(meta, None)
+
     def __repr__(self) -> str:
         return "EventGrain({!r})".format(self.meta)
 
diff --git a/mediagrains/grains/Grain.py b/mediagrains/grains/Grain.py
index 1e5e681..b577431 100644
--- a/mediagrains/grains/Grain.py
+++ b/mediagrains/grains/Grain.py
@@ -368,10 +368,20 @@ media_rate
         return not (self == other)
 
     def __copy__(self) -> "Grain":
-        return GrainFactory(copy(self.meta), self.data)
+        return self._copy(copy(self.meta), self.data)
 
     def __deepcopy__(self, memo) -> "Grain":
-        return GrainFactory(deepcopy(self.meta), deepcopy(self.data))
+        if isinstance(self.data, memoryview):
+            # Memory views can't be deep copied
+            return self._copy(deepcopy(self.meta), bytes(self.data))
+        return self._copy(deepcopy(self.meta), deepcopy(self.data))
+
+    def _copy(self, meta: GrainMetadataDict, data: Optional[GrainDataType]) -> "Grain":
+        grain = GrainFactory(meta, data)
+        if data is None:
+            # Most types of grain make up a data element when they are given none
+            grain._data = None
+        return grain
 
     def __bytes__(self) -> Optional[bytes]:
         if isinstance(self._data, bytes):
diff --git a/mediagrains/numpy/numpy_grains/AudioGrain.py b/mediagrains/numpy/numpy_grains/AudioGrain.py
index e000a71..102f364 100644
--- a/mediagrains/numpy/numpy_grains/AudioGrain.py
+++ b/mediagrains/numpy/numpy_grains/AudioGrain.py
@@ -195,11 +195,17 @@ class AudioGrain (bytesgrain.AudioGrain):
         return bytes(self._data)
 
     def __copy__(self) -> "AudioGrain":
-        return AudioGrain(meta=copy(self.meta), data=self.data)
+        return self._copy(copy(self.meta), self._data)
 
     def __deepcopy__(self, memo) -> "AudioGrain":
-        return AudioGrain(meta=deepcopy(self.meta),
-                          data=self._data.copy() if self._data is not None else None)
+        return self._copy(deepcopy(self.meta), self._data.copy() if self._data is not None else None)
+
+    def _copy(self, meta: AudioGrainMetadataDict, data: Optional[np.ndarray]) -> "AudioGrain":
+        grain = AudioGrain(meta=meta, data=data)
+        if data is None:
+            # The constructor makes up a data element when it is given none
+            grain.data = None
+        return grain
 
     def __repr__(self) -> str:
         if self.data is None:
diff --git a/mediagrains/numpy/numpy_grains/VideoGrain.py b/mediagrains/numpy/numpy_grains/VideoGrain.py
index 7d05de8..3a835b3 100644
--- a/mediagrains/numpy/numpy_grains/VideoGrain.py
+++ b/mediagrains/numpy/numpy_grains/VideoGrain.py
@@ -307,11 +307,17 @@ class VideoGrain (bytesgrain.VideoGrain):
         return bytes(self._data)
 
     def __copy__(self) -> "VideoGrain":
-        return VideoGrain(meta=copy(self.meta), data=self.data)
+        return self._copy(copy(self.meta), self._data)
 
     def __deepcopy__(self, memo) -> "VideoGrain":
-        return VideoGrain(meta=deepcopy(self.meta),
-                          data=self._data.copy() if self._data is not None else None)
+        return self._copy(deepcopy(self.meta), self._data.copy() if self._data is not None else None)
+
+    def _copy(self, meta: VideoGrainMetadataDict, data: Optional[np.ndarray]) -> "VideoGrain":
+        grain = VideoGrain(meta=meta, data=data)
+        if data is None:
+            # The constructor makes up a data element when it is given none
+            grain.data = None
+        return grain
 
     def __repr__(self) -> str:
         if self.data is None:
-- 
2.43.0


From 3ed958f2f61921eb196e9bc749790e4632a9b6f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:15 +0000
Subject: [PATCH 55/82] fix: don't change the data of 24 bit planar audio when
 a numpy grain is made of it

The samples were shifted in place, or, for read-only data, ValueError was raised.
---
 mediagrains/numpy/numpy_grains/AudioGrain.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/mediagrains/numpy/numpy_grains/AudioGrain.py b/mediagrains/numpy/numpy_grains/AudioGrain.py
index 102f364..7ddfdb6 100644
--- a/mediagrains/numpy/numpy_grains/AudioGrain.py
+++ b/mediagrains/numpy/numpy_grains/AudioGrain.py
@@ -67,8 +67,7 @@ def _channel_arrays_for_data_and_type(data: Optional[np.ndarray],
         else:
             # The 24 bits are stored in the least significant bits. Shift to the most
             # significant bits end to produce int32 samples
-            data = data.view(np.int32)
-            data <<= 8
+            data = data.view(np.int32) << 8
         sample_bytes = 4
     else:
         sample_bytes = COG_AUDIO_FORMAT_SAMPLEBYTES(format)
-- 
2.43.0


From dd9708233d729417fd0a861c12d58335d268c3a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:15 +0000
Subject: [PATCH 56/82] fix: support BGRA in numpy video grains, as RGBA and
 BGRx are

---
 mediagrains/numpy/numpy_grains/VideoGrain.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mediagrains/numpy/numpy_grains/VideoGrain.py b/mediagrains/numpy/numpy_grains/VideoGrain.py
index 3a835b3..97bc633 100644
--- a/mediagrains/numpy/numpy_grains/VideoGrain.py
+++ b/mediagrains/numpy/numpy_grains/VideoGrain.py
@@ -45,7 +45,7 @@ def _dtype_from_cogframeformat(fmt: CogFrameFormat) -> np.dtype:
                  CogFrameFormat.RGBx,
                  CogFrameFormat.RGBA,
                  CogFrameFormat.BGRx,
-                 CogFrameFormat.BGRx,
+                 CogFrameFormat.BGRA,
                  CogFrameFormat.ARGB,
                  CogFrameFormat.xRGB,
                  CogFrameFormat.ABGR,
@@ -184,7 +184,7 @@ def _component_arrays_for_data_and_type(
     elif fmt in [CogFrameFormat.RGBx,
                  CogFrameFormat.RGBA,
                  CogFrameFormat.BGRx,
-                 CogFrameFormat.BGRx]:
+                 CogFrameFormat.BGRA]:
         # 8 bit 4:4:4:4 four components interleave dropping the fourth component
         return _component_arrays_for_interleaved_444_take_three(data,
                                                                 data[1:],
-- 
2.43.0


From 28a91e92103d0332d1659f5bd2645f86dbeca4f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:15 +0000
Subject: [PATCH 57/82] fix: comparison of numpy grains

It raised ValueError (truth value of an array) where the grains differ in identity only or in their data.
---
 mediagrains/numpy/numpy_grains/AudioGrain.py |  5 ++++-
 mediagrains/numpy/numpy_grains/VideoGrain.py |  5 ++++-
 mediagrains/numpy/numpy_grains/_data.py      | 16 ++++++++++++++++
 3 files changed, 24 insertions(+), 2 deletions(-)

diff --git a/mediagrains/numpy/numpy_grains/AudioGrain.py b/mediagrains/numpy/numpy_grains/AudioGrain.py
index 7ddfdb6..8e88bb3 100644
--- a/mediagrains/numpy/numpy_grains/AudioGrain.py
+++ b/mediagrains/numpy/numpy_grains/AudioGrain.py
@@ -12,7 +12,7 @@ from numpy.lib.stride_tricks import as_strided
 from mediatimestamp.immutable import SupportsMediaTimestamp
 import mediagrains.grains as bytesgrain
 
-from ._data import array_from_data
+from ._data import array_from_data, grain_equals
 from ...cogenums import (
     CogAudioFormat,
     COG_AUDIO_IS_INT,
@@ -193,6 +193,9 @@ class AudioGrain (bytesgrain.AudioGrain):
             return bytes()
         return bytes(self._data)
 
+    def __eq__(self, other: object) -> bool:
+        return grain_equals(self, self._data, other)
+
     def __copy__(self) -> "AudioGrain":
         return self._copy(copy(self.meta), self._data)
 
diff --git a/mediagrains/numpy/numpy_grains/VideoGrain.py b/mediagrains/numpy/numpy_grains/VideoGrain.py
index 97bc633..6d749a0 100644
--- a/mediagrains/numpy/numpy_grains/VideoGrain.py
+++ b/mediagrains/numpy/numpy_grains/VideoGrain.py
@@ -12,7 +12,7 @@ import numpy as np
 from numpy.lib.stride_tricks import as_strided
 
 from typing import Callable, Dict, Tuple, Optional, Awaitable, cast
-from ._data import array_from_data
+from ._data import array_from_data, grain_equals
 from ...typing import VideoGrainMetadataDict, GrainDataType, GrainDataParameterType
 
 from inspect import isawaitable
@@ -306,6 +306,9 @@ class VideoGrain (bytesgrain.VideoGrain):
             return bytes()
         return bytes(self._data)
 
+    def __eq__(self, other: object) -> bool:
+        return grain_equals(self, self._data, other)
+
     def __copy__(self) -> "VideoGrain":
         return self._copy(copy(self.meta), self._data)
 
diff --git a/mediagrains/numpy/numpy_grains/_data.py b/mediagrains/numpy/numpy_grains/_data.py
index d83f58f..c4818be 100644
--- a/mediagrains/numpy/numpy_grains/_data.py
+++ b/mediagrains/numpy/numpy_grains/_data.py
@@ -1,8 +1,24 @@
+from typing import Optional, SupportsBytes
+
 import numpy as np
 
+from ...grains import Grain
+
 
 def array_from_data(data, dtype: np.dtype) -> np.ndarray:
     """An array of the given type holding a grain's data element, without copying it where that is possible"""
     if not isinstance(data, (bytes, bytearray, memoryview, np.ndarray)):
         data = bytes(data)
     return np.frombuffer(data, dtype=dtype)
+
+
+def grain_equals(grain: Grain, data: Optional[np.ndarray], other: object) -> bool:
+    """The comparison of grains, for a grain with the given array as its data element"""
+    if isinstance(other, Grain):
+        other = (other.meta, other.data)
+    if not isinstance(other, tuple) or len(other) != 2 or grain.meta != other[0]:
+        return False
+    if data is None or other[1] is None:
+        return data is other[1]
+    return (isinstance(other[1], (bytearray, memoryview, np.ndarray, SupportsBytes)) and
+            bytes(data) == bytes(other[1]))
-- 
2.43.0


From a5787f86834b377835bed91ffa80fbf24fb0967b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:15 +0000
Subject: [PATCH 58/82] fix: the offset of the first component of interleaved
 video in numpy grains

---
 mediagrains/numpy/numpy_grains/VideoGrain.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/mediagrains/numpy/numpy_grains/VideoGrain.py b/mediagrains/numpy/numpy_grains/VideoGrain.py
index 6d749a0..e60f8fd 100644
--- a/mediagrains/numpy/numpy_grains/VideoGrain.py
+++ b/mediagrains/numpy/numpy_grains/VideoGrain.py
@@ -164,7 +164,12 @@ def _component_arrays_for_data_and_type(
                        shape=(component.height, component.width),
                        strides=(component.stride, data.itemsize)).transpose()
             for component in components]
-    elif fmt in [CogFrameFormat.UYVY, CogFrameFormat.v216]:
+
+    if len(components) > 0:
+        # The components of interleaved formats all start in the first pixel
+        data = data[components[0].offset//data.itemsize:]
+
+    if fmt in [CogFrameFormat.UYVY, CogFrameFormat.v216]:
         # Either 8 or 16 bits 4:2:2 interleavedd in UYVY order
         return _component_arrays_for_interleaved_422(
             data[1:], data, data[2:], components[0].width, components[0].height, components[0].stride, data.itemsize)
-- 
2.43.0


From 453c1ee1845c5452dce54ee8712a83e2ae804167 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:15 +0000
Subject: [PATCH 59/82] fix: no access to components and channels which the
 data of a numpy grain doesn't hold

Their arrays reached beyond the data, into memory which has nothing to do with the grain.
---
 mediagrains/numpy/numpy_grains/AudioGrain.py |  8 ++++-
 mediagrains/numpy/numpy_grains/VideoGrain.py | 35 ++++++++++++++++----
 2 files changed, 36 insertions(+), 7 deletions(-)

diff --git a/mediagrains/numpy/numpy_grains/AudioGrain.py b/mediagrains/numpy/numpy_grains/AudioGrain.py
index 8e88bb3..030d981 100644
--- a/mediagrains/numpy/numpy_grains/AudioGrain.py
+++ b/mediagrains/numpy/numpy_grains/AudioGrain.py
@@ -62,7 +62,7 @@ def _channel_arrays_for_data_and_type(data: Optional[np.ndarray],
         if COG_AUDIO_FORMAT_SAMPLEBYTES(format) == 3:
             # Widen samples to int32
             wide_data = np.zeros((len(data) // 3, 4), dtype=np.uint8)
-            wide_data[:, 1:] = data.reshape((-1, 3))
+            wide_data[:, 1:] = data[:len(data) // 3 * 3].reshape((-1, 3))
             data = wide_data.view(np.int32)
         else:
             # The 24 bits are stored in the least significant bits. Shift to the most
@@ -72,6 +72,12 @@ def _channel_arrays_for_data_and_type(data: Optional[np.ndarray],
     else:
         sample_bytes = COG_AUDIO_FORMAT_SAMPLEBYTES(format)
 
+    if not COG_AUDIO_IS_PLANES(format):
+        stored_channels = (channels + 1) // 2 * 2 if COG_AUDIO_IS_PAIRS(format) else channels
+        if data.nbytes < stored_channels * samples * sample_bytes:
+            # Not all of the channels are there
+            return []
+
     channel_data: List[np.ndarray] = []
     if COG_AUDIO_IS_PLANES(format):
         for channel in range(channels):
diff --git a/mediagrains/numpy/numpy_grains/VideoGrain.py b/mediagrains/numpy/numpy_grains/VideoGrain.py
index e60f8fd..ebd32a4 100644
--- a/mediagrains/numpy/numpy_grains/VideoGrain.py
+++ b/mediagrains/numpy/numpy_grains/VideoGrain.py
@@ -222,6 +222,33 @@ def _component_arrays_for_data_and_type(
     raise NotImplementedError("Cog Frame Format not amongst those supported for numpy array interpretation")
 
 
+def _data_holds_components(
+ data: np.ndarray, fmt: CogFrameFormat, components: bytesgrain.VideoGrain.COMPONENT_LIST) -> bool:
+    """This method returns whether some data is long enough for all of the components."""
+    if COG_FRAME_IS_PLANAR(fmt):
+        values_per_pixel = 1
+    elif fmt in [CogFrameFormat.UYVY, CogFrameFormat.YUYV, CogFrameFormat.v216]:
+        values_per_pixel = 2
+    elif fmt == CogFrameFormat.RGB:
+        values_per_pixel = 3
+    else:
+        values_per_pixel = 4
+    return len(components) > 0 and all(
+        component.offset + (component.height - 1)*component.stride + component.width*values_per_pixel*data.itemsize
+        <= data.nbytes
+        for component in components)
+
+
+def _component_data_list(
+ data: np.ndarray, fmt: CogFrameFormat, components: bytesgrain.VideoGrain.COMPONENT_LIST) -> ComponentDataList:
+    """This method returns the component arrays for some data, or an empty list if it doesn't hold the components."""
+    if fmt == CogFrameFormat.v210 or not _data_holds_components(data, fmt, components):
+        return ComponentDataList([])
+    return ComponentDataList(
+        _component_arrays_for_data_and_type(data, fmt, components),
+        arrangement=_component_arrangement_from_format(fmt))
+
+
 class VideoGrain (bytesgrain.VideoGrain):
     ConversionFunc = Callable[["VideoGrain", "VideoGrain"], None]
 
@@ -262,9 +289,7 @@ class VideoGrain (bytesgrain.VideoGrain):
 
         if self._data is not None:
             self._data = array_from_data(self._data, _dtype_from_cogframeformat(self.cog_frame_format))
-            self.component_data = ComponentDataList(
-                _component_arrays_for_data_and_type(self._data, self.cog_frame_format, self.components),
-                arrangement=_component_arrangement_from_format(self.cog_frame_format))
+            self.component_data = _component_data_list(self._data, self.cog_frame_format, self.components)
         else:
             self.component_data = ComponentDataList([])
 
@@ -299,9 +324,7 @@ class VideoGrain (bytesgrain.VideoGrain):
                 self.component_data = ComponentDataList([])
                 return
             self._data = array_from_data(value, _dtype_from_cogframeformat(self.cog_frame_format))
-            self.component_data = ComponentDataList(
-                _component_arrays_for_data_and_type(self._data, self.cog_frame_format, self.components),
-                arrangement=_component_arrangement_from_format(self.cog_frame_format))
+            self.component_data = _component_data_list(self._data, self.cog_frame_format, self.components)
 
     def __array__(self) -> np.ndarray:
         return np.array(self.data)
-- 
2.43.0


From 0c72037dceb03a1b8b67f8593789a333a36a2c1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:46 +0000
Subject: [PATCH 60/82] fix: pairwise comparison returning only the last result
 when nothing was compared or one side ended first

---
 mediagrains/comparison/_internal.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mediagrains/comparison/_internal.py b/mediagrains/comparison/_internal.py
index e8a7516..bcf123d 100644
--- a/mediagrains/comparison/_internal.py
+++ b/mediagrains/comparison/_internal.py
@@ -531,6 +531,7 @@ class GrainIteratorComparisonResult(ComparisonResult):
         all_success = True
 
         children: list[ComparisonResult] = []
+        last_comparison: Optional[ComparisonResult] = None
 
         while True:
             A = next(a, None)
@@ -560,7 +561,7 @@ class GrainIteratorComparisonResult(ComparisonResult):
                     all_success = False
                     break
 
-        if self.return_last_only and last_comparison is not None:
+        if self.return_last_only and last_comparison is not None and len(children) == 0:
             children.append(last_comparison)
 
         if all_success:
-- 
2.43.0


From c202d852304ae018b76e49f69c74a7852c0274d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:46 +0000
Subject: [PATCH 61/82] fix: comparison of data which isn't a whole number of
 words, of S24 planes and of NaN, and where data first differs

---
 mediagrains/comparison/_internal.py | 27 +++++++++++++++++++--------
 1 file changed, 19 insertions(+), 8 deletions(-)

diff --git a/mediagrains/comparison/_internal.py b/mediagrains/comparison/_internal.py
index bcf123d..7acca2e 100644
--- a/mediagrains/comparison/_internal.py
+++ b/mediagrains/comparison/_internal.py
@@ -259,6 +259,17 @@ class DataEqualityComparisonResult(ComparisonResult):
         if b is not None:
             b = bytes(b)
 
+        # Where the data isn't a whole number of words it's compared byte by byte
+        self._word_size = struct.calcsize(alignment + word_code)*words_per_sample
+        if any(x is not None and len(x) % self._word_size != 0 for x in (a, b)):
+            self.words_per_sample = words_per_sample = 1
+            self.word_code = word_code = 'B'
+            self._word_size = 1
+
+        # Identical data isn't equal when compared as words if those aren't equal to themselves (NaN)
+        self._data_a = a
+        self._data_b = b
+
         def _signer(n):
             OFL = 1 << (words_per_sample*8)
             MAX = OFL >> 1
@@ -314,12 +325,12 @@ class DataEqualityComparisonResult(ComparisonResult):
             return (False, "For speed reasons not comparing {} and {} when this would be excluded".format(
                 self._identifier.format('a'), self._identifier.format('b')), [])
 
-        self.d = SequenceMatcher(None, a, b)
-        if self.d.ratio() == 1.0:
+        if self._data_a == self._data_b or a == b:
             return (True, "Binary data {} are equal".format(self._identifier.format('<a/b>')), [])
         else:
-            first_op = [x for x in self.d.get_opcodes() if x[0] != 'equal'][0]
-            i = first_op[1]
+            self.d = SequenceMatcher(None, a, b)
+            i = next((n for (n, (x, y)) in enumerate(zip(self._data_a, self._data_b)) if x != y),
+                     min(len(self._data_a), len(self._data_b)))//self._word_size
             if i < len(a) and i < len(b):
                 msg = ("Binary data {} has similarity {} to {}, " +
                        "first different values are {}[{}] == {} and {}[{}] == {}").format(self._identifier.format('a'),
@@ -369,7 +380,7 @@ class DataEqualityComparisonResult(ComparisonResult):
             prefix += "  "
             opstrings = [prefix + "{:7}   a[{}:{}] --> b[{}:{}] {:>8} --> {}".format(
                             tag, i1, i2, j1, j2, '(' + ', '.join(str(x) for x in self.a[i1:i2]) + ')',  # type: ignore
-                            '(' + ', '.join(str(x) for x in self.b[i1:i2]) + ')')  # type: ignore
+                            '(' + ', '.join(str(x) for x in self.b[j1:j2]) + ')')  # type: ignore
                          for (tag, i1, i2, j1, j2) in self.d.get_opcodes()[:5]]
             r += '\n' + opstrings[0]
             if len(opstrings) > 1:
@@ -660,13 +671,13 @@ class GrainComparisonResult(ComparisonResult):
                                           CogAudioFormat.S16_PAIRS,
                                           CogAudioFormat.S16_INTERLEAVED]:
                     word_code = 'h'
-                elif a.cog_audio_format in [CogAudioFormat.S24_PLANES,
-                                            CogAudioFormat.S24_PAIRS,
+                elif a.cog_audio_format in [CogAudioFormat.S24_PAIRS,
                                             CogAudioFormat.S24_INTERLEAVED]:
                     word_code = 'B'
                     words_per_sample = 3
                     force_signed = True
-                elif a.cog_audio_format in [CogAudioFormat.S32_PLANES,
+                elif a.cog_audio_format in [CogAudioFormat.S24_PLANES,  # padded to 32 bits
+                                            CogAudioFormat.S32_PLANES,
                                             CogAudioFormat.S32_PAIRS,
                                             CogAudioFormat.S32_INTERLEAVED]:
                     word_code = 'i'
-- 
2.43.0


From 5f946c0a3362f58b999179fffa6a8de12d4c7c4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:46 +0000
Subject: [PATCH 62/82] fix: comparison by PSNR of grains which have no samples
 to compare, differing dimensions or infinite values

---
 mediagrains/comparison/_internal.py |  8 +++++---
 mediagrains/comparison/psnr.py      | 11 +++++++++++
 2 files changed, 16 insertions(+), 3 deletions(-)

diff --git a/mediagrains/comparison/_internal.py b/mediagrains/comparison/_internal.py
index 7acca2e..10257a8 100644
--- a/mediagrains/comparison/_internal.py
+++ b/mediagrains/comparison/_internal.py
@@ -452,7 +452,7 @@ class PSNRComparisonResult(ComparisonResult):
 
         try:
             psnr = compute_psnr(a, b)
-        except NotImplementedError:
+        except (NotImplementedError, AttributeError, ValueError):
             return (False, "Grain is not supported for PSNR comparison of {} and {}".format(
                 self._identifier.format('a'), self._identifier.format('b')), [])
 
@@ -663,7 +663,8 @@ class GrainComparisonResult(ComparisonResult):
                 children['data'] = PSNRComparisonResult(path,
                                                         a,
                                                         b,
-                                                        options=self._options)
+                                                        options=self._options,
+                                                        attr="data")
             else:
                 words_per_sample = 1
                 force_signed = False
@@ -754,7 +755,8 @@ class GrainComparisonResult(ComparisonResult):
                 children['data'] = PSNRComparisonResult(path,
                                                         a,
                                                         b,
-                                                        options=self._options)
+                                                        options=self._options,
+                                                        attr="data")
             else:
                 if COG_FRAME_IS_COMPRESSED(a.cog_frame_format):
                     word_code = 'B'
diff --git a/mediagrains/comparison/psnr.py b/mediagrains/comparison/psnr.py
index 63cffe3..4606813 100644
--- a/mediagrains/comparison/psnr.py
+++ b/mediagrains/comparison/psnr.py
@@ -57,6 +57,8 @@ def _compute_element_psnr(data_a, data_b, max_val) -> float:
     mse = _compute_element_mse(data_a, data_b)
     if mse == 0:
         return float('Inf')
+    elif math.isinf(mse):
+        return float('-Inf')
     else:
         return 10.0 * math.log10((max_val**2)/mse)
 
@@ -97,6 +99,11 @@ def _compute_audio_psnr(grain_a: Union[AudioGrain, numpy_AudioGrain],
         elif COG_AUDIO_FORMAT_DEPTH(grain_a.format) == COG_AUDIO_FORMAT_DEPTH_S32:
             max_val = 1 << 31
 
+    for grain in (grain_a, grain_b):
+        if (grain.channels == 0 or
+                [len(channel_data) for channel_data in grain.channel_data] != [grain.samples]*grain.channels):
+            raise NotImplementedError("PSNR of grains without all of their sample data is not supported")
+
     psnr = []
     for channel_data_a, channel_data_b in zip(grain_a.channel_data, grain_b.channel_data):
         psnr.append(_compute_element_psnr(channel_data_a, channel_data_b, max_val))
@@ -128,6 +135,10 @@ def _compute_video_psnr(grain_a: Union[VideoGrain, numpy_VideoGrain],
     if max_val is None:
         max_val = (1 << COG_FRAME_FORMAT_ACTIVE_BITS(grain_a.cog_frame_format)) - 1
 
+    if ([comp_data.shape for comp_data in grain_a.component_data] !=
+            [comp_data.shape for comp_data in grain_b.component_data] or len(grain_a.component_data) == 0):
+        raise NotImplementedError("PSNR of grains without component data of the same size is not supported")
+
     psnr = []
     for comp_data_a, comp_data_b in zip(grain_a.component_data, grain_b.component_data):
         psnr.append(_compute_element_psnr(comp_data_a, comp_data_b, max_val))
-- 
2.43.0


From e2fb5e95ff562626f6208b9ed310a2abc4321b5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:39 +0000
Subject: [PATCH 63/82] fix: conversion of the highest sample values, which
 became 0 when losing bits or changing colour space

---
 mediagrains/numpy/convert.py | 30 ++++++++++++++++--------------
 1 file changed, 16 insertions(+), 14 deletions(-)

diff --git a/mediagrains/numpy/convert.py b/mediagrains/numpy/convert.py
index 2a0c925..7f65277 100644
--- a/mediagrains/numpy/convert.py
+++ b/mediagrains/numpy/convert.py
@@ -100,8 +100,8 @@ def _simple_duplicate_convert_yuv420__yuv422(grain_in: VideoGrain, grain_out: Vi
 
 
 # Bit depth conversions
-def _unbiased_right_shift(a: np.ndarray, n: int) -> np.ndarray:
-    return (a >> n) + ((a >> (n - 1)) & 0x1)
+def _unbiased_right_shift(a: np.ndarray, n: int, max_value: int) -> np.ndarray:
+    return np.minimum((a >> n) + ((a >> (n - 1)) & 0x1), max_value)
 
 
 def _bitdepth_down_convert_yuv(grain_in: VideoGrain, grain_out: VideoGrain) -> None:
@@ -109,10 +109,11 @@ def _bitdepth_down_convert_yuv(grain_in: VideoGrain, grain_out: VideoGrain) -> N
         COG_FRAME_FORMAT_ACTIVE_BITS(grain_in.cog_frame_format) -
         COG_FRAME_FORMAT_ACTIVE_BITS(grain_out.cog_frame_format)
     )
+    max_value = (1 << COG_FRAME_FORMAT_ACTIVE_BITS(grain_out.cog_frame_format)) - 1
 
-    grain_out.component_data[0][:] = _unbiased_right_shift(grain_in.component_data[0][:], bitshift)
-    grain_out.component_data[1][:] = _unbiased_right_shift(grain_in.component_data[1][:], bitshift)
-    grain_out.component_data[2][:] = _unbiased_right_shift(grain_in.component_data[2][:], bitshift)
+    grain_out.component_data[0][:] = _unbiased_right_shift(grain_in.component_data[0][:], bitshift, max_value)
+    grain_out.component_data[1][:] = _unbiased_right_shift(grain_in.component_data[1][:], bitshift, max_value)
+    grain_out.component_data[2][:] = _unbiased_right_shift(grain_in.component_data[2][:], bitshift, max_value)
 
 
 def _bitdepth_down_convert_rgb(grain_in: VideoGrain, grain_out: VideoGrain) -> None:
@@ -120,10 +121,11 @@ def _bitdepth_down_convert_rgb(grain_in: VideoGrain, grain_out: VideoGrain) -> N
         COG_FRAME_FORMAT_ACTIVE_BITS(grain_in.cog_frame_format) -
         COG_FRAME_FORMAT_ACTIVE_BITS(grain_out.cog_frame_format)
     )
+    max_value = (1 << COG_FRAME_FORMAT_ACTIVE_BITS(grain_out.cog_frame_format)) - 1
 
-    grain_out.component_data.R[:] = _unbiased_right_shift(grain_in.component_data.R[:], bitshift)
-    grain_out.component_data.G[:] = _unbiased_right_shift(grain_in.component_data.G[:], bitshift)
-    grain_out.component_data.B[:] = _unbiased_right_shift(grain_in.component_data.B[:], bitshift)
+    grain_out.component_data.R[:] = _unbiased_right_shift(grain_in.component_data.R[:], bitshift, max_value)
+    grain_out.component_data.G[:] = _unbiased_right_shift(grain_in.component_data.G[:], bitshift, max_value)
+    grain_out.component_data.B[:] = _unbiased_right_shift(grain_in.component_data.B[:], bitshift, max_value)
 
 
 def _noisy_left_shift(a: np.ndarray, n: int) -> np.ndarray:
@@ -166,11 +168,11 @@ def _convert_rgb_to_yuv444(grain_in: VideoGrain, grain_out: VideoGrain) -> None:
 
     # Note that NumPy requires the `unsafe` cast here due to the slight loss of precision in RGB<->YUV conversion
     np.clip((R*0.2126 + G*0.7152 + B*0.0722),
-            0, 1 << bd, out=grain_out.component_data.Y, casting="unsafe")  # type: ignore
+            0, (1 << bd) - 1, out=grain_out.component_data.Y, casting="unsafe")  # type: ignore
     np.clip((R*-0.114572 - G*0.385428 + B*0.5 + (1 << (bd - 1))),  # type: ignore
-            0, 1 << bd, out=grain_out.component_data.U, casting="unsafe")
+            0, (1 << bd) - 1, out=grain_out.component_data.U, casting="unsafe")
     np.clip((R*0.5 - G*0.454153 - B*0.045847 + (1 << (bd - 1))),  # type: ignore
-            0, 1 << bd, out=grain_out.component_data.V, casting="unsafe")
+            0, (1 << bd) - 1, out=grain_out.component_data.V, casting="unsafe")
 
 
 def _convert_yuv444_to_rgb(grain_in: VideoGrain, grain_out: VideoGrain) -> None:
@@ -181,11 +183,11 @@ def _convert_yuv444_to_rgb(grain_in: VideoGrain, grain_out: VideoGrain) -> None:
 
     # Note that NumPy requires the `unsafe` cast here due to the slight loss of precision in RGB<->YUV conversion
     np.clip((Y + V*1.5748),
-            0, 1 << bd, out=grain_out.component_data.R, casting="unsafe")  # type: ignore
+            0, (1 << bd) - 1, out=grain_out.component_data.R, casting="unsafe")  # type: ignore
     np.clip((Y - U*0.187324 - V*0.468124),
-            0, 1 << bd, out=grain_out.component_data.G, casting="unsafe")  # type: ignore
+            0, (1 << bd) - 1, out=grain_out.component_data.G, casting="unsafe")  # type: ignore
     np.clip((Y + U*1.8556),
-            0, 1 << bd, out=grain_out.component_data.B, casting="unsafe")  # type: ignore
+            0, (1 << bd) - 1, out=grain_out.component_data.B, casting="unsafe")  # type: ignore
 
 
 def _convert_v210_to_yuv422_10bit(grain_in: VideoGrain, grain_out: VideoGrain) -> None:
-- 
2.43.0


From 4c4015550334a272a63638b385bd3d9e2f3ae2ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:44:03 +0000
Subject: [PATCH 64/82] fix: refuse to assign too many unit offsets to an
 extended slice of a coded video grain without any

---
 mediagrains/grains/CodedVideoGrain.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/mediagrains/grains/CodedVideoGrain.py b/mediagrains/grains/CodedVideoGrain.py
index 7a8a144..cb2aff2 100644
--- a/mediagrains/grains/CodedVideoGrain.py
+++ b/mediagrains/grains/CodedVideoGrain.py
@@ -356,7 +356,9 @@ unit_offsets
             if 'unit_offsets' in self.parent.meta['grain']['cog_coded_frame']:
                 self.parent.meta['grain']['cog_coded_frame']['unit_offsets'][key] = value
             elif isinstance(key, slice):
-                self.parent.unit_offsets = value
+                d: List[int] = []
+                d[key] = value
+                self.parent.unit_offsets = d
             else:
                 raise IndexError("list assignment index out of range")
 
-- 
2.43.0


From 72f658ada0ea82e462e05ed8affcedeb21a88ac7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:58:45 +0000
Subject: [PATCH 65/82] fix: hypothesis strategies produce grains of the format
 that was asked for

---
 mediagrains/hypothesis/strategies.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/mediagrains/hypothesis/strategies.py b/mediagrains/hypothesis/strategies.py
index 55f7648..31e6f01 100644
--- a/mediagrains/hypothesis/strategies.py
+++ b/mediagrains/hypothesis/strategies.py
@@ -252,7 +252,7 @@ def audio_grains(src_id=None,
                            sync_timestamp=sync_timestamp,
                            rate=rate,
                            duration=duration,
-                           format=format,
+                           cog_audio_format=format,
                            samples=samples,
                            channels=channels,
                            sample_rate=sample_rate)
@@ -317,7 +317,7 @@ def coded_audio_grains(src_id=None,
                            sync_timestamp=sync_timestamp,
                            rate=rate,
                            duration=duration,
-                           format=format,
+                           cog_audio_format=format,
                            samples=samples,
                            channels=channels,
                            sample_rate=sample_rate,
@@ -377,7 +377,7 @@ def video_grains(src_id=None,
                            sync_timestamp=sync_timestamp,
                            rate=rate,
                            duration=duration,
-                           format=format,
+                           cog_frame_format=format,
                            width=width,
                            height=height,
                            cog_frame_layout=cog_frame_layout)
@@ -449,7 +449,7 @@ def coded_video_grains(src_id=None,
                            sync_timestamp=sync_timestamp,
                            rate=rate,
                            duration=duration,
-                           format=format,
+                           cog_frame_format=format,
                            origin_width=origin_width,
                            origin_height=origin_height,
                            coded_width=coded_width,
-- 
2.43.0


From 2bb5148d271cfb262e3eb7d179102cd6fde675a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:58:45 +0000
Subject: [PATCH 66/82] fix: coded_audio_grains gives grains the creation
 timestamp that was asked for

---
 mediagrains/hypothesis/strategies.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/mediagrains/hypothesis/strategies.py b/mediagrains/hypothesis/strategies.py
index 31e6f01..f6c26f2 100644
--- a/mediagrains/hypothesis/strategies.py
+++ b/mediagrains/hypothesis/strategies.py
@@ -313,6 +313,7 @@ def coded_audio_grains(src_id=None,
     return _grain_strategy(CodedAudioGrain, "coded_audio",
                            src_id=src_id,
                            flow_id=flow_id,
+                           creation_timestamp=creation_timestamp,
                            origin_timestamp=origin_timestamp,
                            sync_timestamp=sync_timestamp,
                            rate=rate,
-- 
2.43.0


From 944a5e3513da789b6bed9459234eeceaee3ebcff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:58:45 +0000
Subject: [PATCH 67/82] fix: event_grains can leave timestamps unset

---
 mediagrains/hypothesis/strategies.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/mediagrains/hypothesis/strategies.py b/mediagrains/hypothesis/strategies.py
index f6c26f2..c8ac54c 100644
--- a/mediagrains/hypothesis/strategies.py
+++ b/mediagrains/hypothesis/strategies.py
@@ -590,14 +590,14 @@ def event_grains(src_id=None,
     def event_grain(
      src_id,
      flow_id,
-     origin_timestamp,
-     sync_timestamp,
      rate,
      duration,
-     creation_timestamp,
      event_type,
      topic,
-     event_data):
+     event_data,
+     creation_timestamp=None,
+     origin_timestamp=None,
+     sync_timestamp=None):
         grain = EventGrain(
             src_id=src_id,
             flow_id=flow_id,
-- 
2.43.0


From b822c85011e5b4ab9c566e9d257cac1c148eb4e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:58:45 +0000
Subject: [PATCH 68/82] fix: coded_video_grains draws increasing unit offsets

---
 mediagrains/hypothesis/strategies.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mediagrains/hypothesis/strategies.py b/mediagrains/hypothesis/strategies.py
index c8ac54c..f01cc27 100644
--- a/mediagrains/hypothesis/strategies.py
+++ b/mediagrains/hypothesis/strategies.py
@@ -131,7 +131,7 @@ def strategy_for_grain_attribute(attr, grain_type=None):
               'is_key_frame': booleans(),
               'temporal_offset': integers(min_value=0, max_value=16),
               'unit_offsets': just(None) | lists(
-                integers(min_value=0, max_value=256), min_size=0, max_size=16).filter(sorted)}
+                integers(min_value=0, max_value=256), min_size=0, max_size=16).map(sorted)}
     if attr not in strats:
         raise ValueError("No strategy known for grain attribute: {!r}".format(attr))
     if isinstance(strats[attr], Exception):
-- 
2.43.0


From e112621c37cf72ad5f4ca8d0e8373ab83673ca5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:58:45 +0000
Subject: [PATCH 69/82] fix: grains drawn from a template do not share its
 metadata

---
 mediagrains/hypothesis/strategies.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mediagrains/hypothesis/strategies.py b/mediagrains/hypothesis/strategies.py
index f01cc27..fc64feb 100644
--- a/mediagrains/hypothesis/strategies.py
+++ b/mediagrains/hypothesis/strategies.py
@@ -40,7 +40,7 @@ from hypothesis.strategies import (
 import struct
 
 from fractions import Fraction
-from copy import copy
+from copy import deepcopy
 from uuid import UUID
 
 from ..grains import new_attributes_for_grain_type as attributes_for_grain_type
@@ -535,7 +535,7 @@ def grains_from_template_with_data(grain, data=None):
         data = just(data)
 
     def grain_with_data(grain, data):
-        grain = copy(grain)
+        grain = grain._copy(deepcopy(grain.meta), grain.data)
         grain.data = data
         return grain
 
-- 
2.43.0


From 7b8ae2e506a56d3310ef0ab539fe460f387d4ade Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:00:10 +0000
Subject: [PATCH 70/82] fix: hypothesis strategies for coded grains do not
 produce unknown formats

---
 mediagrains/hypothesis/strategies.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/mediagrains/hypothesis/strategies.py b/mediagrains/hypothesis/strategies.py
index fc64feb..3f9c268 100644
--- a/mediagrains/hypothesis/strategies.py
+++ b/mediagrains/hypothesis/strategies.py
@@ -93,11 +93,13 @@ def strategy_for_grain_attribute(attr, grain_type=None):
             # Uncompressed audio formats
             return sampled_from(CogAudioFormat).filter(lambda x: x < 0x200)
         elif grain_type == "coded_audio":
-            return sampled_from(CogAudioFormat).filter(lambda x: (x & 0x200) != 0 and x != CogAudioFormat.INVALID)
+            return sampled_from(CogAudioFormat).filter(
+                lambda x: (x & 0x200) != 0 and x not in (CogAudioFormat.INVALID, CogAudioFormat.UNKNOWN))
         elif grain_type == "video":
             return sampled_from(CogFrameFormat).filter(lambda x: ((x >> 9) & 0x1) == 0)
         elif grain_type == "coded_video":
-            return sampled_from(CogFrameFormat).filter(lambda x: (x & 0x200) != 0 and x != CogFrameFormat.INVALID)
+            return sampled_from(CogFrameFormat).filter(
+                lambda x: (x & 0x200) != 0 and x not in (CogFrameFormat.INVALID, CogFrameFormat.UNKNOWN))
         else:
             return ValueError("Cannot generate formats for grain type: {!r}".format(grain_type))
 
-- 
2.43.0


From cd057c75a613a897f2cb278237ff70c9e9d14367 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:06:33 +0000
Subject: [PATCH 71/82] fix: coded video grains keep their own list of unit
 offsets

---
 mediagrains/grains/CodedVideoGrain.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mediagrains/grains/CodedVideoGrain.py b/mediagrains/grains/CodedVideoGrain.py
index cb2aff2..b3af93d 100644
--- a/mediagrains/grains/CodedVideoGrain.py
+++ b/mediagrains/grains/CodedVideoGrain.py
@@ -183,7 +183,7 @@ unit_offsets
             data = bytearray(length)
 
         if "grain" in meta and "cog_coded_frame" in meta['grain'] and unit_offsets is not None:
-            meta['grain']['cog_coded_frame']['unit_offsets'] = unit_offsets
+            meta['grain']['cog_coded_frame']['unit_offsets'] = list(unit_offsets)
 
         super().__init__(meta, data)
         self.meta: CodedVideoGrainMetadataDict
-- 
2.43.0


From a51f538c8afe57f2509c80c9ce9457450ba47672 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:10:35 +0000
Subject: [PATCH 72/82] fix: grains with float audio data can be drawn with any
 number of samples

---
 mediagrains/hypothesis/strategies.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/mediagrains/hypothesis/strategies.py b/mediagrains/hypothesis/strategies.py
index 3f9c268..dc8fa99 100644
--- a/mediagrains/hypothesis/strategies.py
+++ b/mediagrains/hypothesis/strategies.py
@@ -513,6 +513,9 @@ def grains_from_template_with_data(grain, data=None):
                 data = lists(floats(width=32,
                                     allow_nan=False,
                                     allow_infinity=False,
+                                    # Values beyond the range of 32 bits would be rejected by the floats strategy, and
+                                    # with more than a few samples there would hardly be any grains left to draw
+                                    max_value=(2 - 2**-23) * 2.0**127,
                                     min_value=0.0),  # Avoids ending up comparing unequal Grains that have +0.0 and -0.0
                                                      # (which compare as equal)
                              min_size=ln,
-- 
2.43.0


From b15082ca32a65910587a00a9434dd18cc1944ddd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:23:55 +0000
Subject: [PATCH 73/82] fix: expected differences of integer attributes are
 taken into account in comparisons

---
 mediagrains/comparison/_internal.py | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/mediagrains/comparison/_internal.py b/mediagrains/comparison/_internal.py
index 10257a8..166991b 100644
--- a/mediagrains/comparison/_internal.py
+++ b/mediagrains/comparison/_internal.py
@@ -158,6 +158,15 @@ class ComparisonResult(Generic[CR]):
         """
         return (False, "A generic comparison always fails", [])
 
+    def _compare_difference(self, diff, opts) -> tuple[bool, str, list[CR]]:
+        """The result of comparing a and b by what is said in the options about their difference."""
+        if all(opt.matcher(diff) for opt in opts):
+            return (True, "{} - {} == {!r}, meets requirements set in options".format(
+                self._identifier.format('a'), self._identifier.format('b'), diff), [])
+        else:
+            return (False, "{} - {} == {!r}, does not meet requirements set in options".format(
+                self._identifier.format('a'), self._identifier.format('b'), diff), [])
+
     def failing_attributes(self) -> list[str]:
         """Call to determine which attributes of the compared objects failed to match
 
@@ -224,6 +233,9 @@ class ComparisonResult(Generic[CR]):
 
 class EqualityComparisonResult(ComparisonResult):
     def compare(self, a, b) -> tuple[bool, str, list[ComparisonResult]]:
+        opts = [option for option in self.ownoptions() if isinstance(option, ComparisonExpectDifferenceMatches)]
+        if len(opts) != 0 and isinstance(a, int) and isinstance(b, int):
+            return self._compare_difference(a - b, opts)
         if a == b:
             return (True, "{} == {!r}".format(self._identifier.format('<a/b>'), a), [])
         else:
@@ -411,12 +423,7 @@ class DifferenceComparisonResult(ComparisonResult):
                 return (False, "{} - {} == {!r}, not the expected {!r}".format(
                     self._identifier.format('a'), self._identifier.format('b'), diff, self._expected_difference), [])
         else:
-            if all(opt.matcher(diff) for opt in opts):
-                return (True, "{} - {} == {!r}, meets requirements set in options".format(
-                    self._identifier.format('a'), self._identifier.format('b'), diff), [])
-            else:
-                return (False, "{} - {} == {!r}, does not meet requirements set in options".format(
-                    self._identifier.format('a'), self._identifier.format('b'), diff), [])
+            return self._compare_difference(diff, opts)
 
 
 class TimestampDifferenceComparisonResult(DifferenceComparisonResult):
-- 
2.43.0


From dfe2056d81d33905e88c57efc4d4eb3e2fb3a0c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:23:55 +0000
Subject: [PATCH 74/82] fix: expected differences can be combined with & and |

---
 mediagrains/comparison/options.py | 48 +++++++++++++++----------------
 1 file changed, 24 insertions(+), 24 deletions(-)

diff --git a/mediagrains/comparison/options.py b/mediagrains/comparison/options.py
index c55637a..fbb3bd3 100644
--- a/mediagrains/comparison/options.py
+++ b/mediagrains/comparison/options.py
@@ -84,30 +84,6 @@ class _ExpectedDifference(object):
         return ComparisonExpectDifferenceMatches(
             self.path, lambda x: x >= other, "{} >= {!r}".format('ExpectedDifference', other))
 
-    def __and__(self, other):
-        if not isinstance(other, ComparisonExpectDifferenceMatches):
-            raise ValueError("{!r} & {!r} is not a valid operation".format(self, other))
-        elif other.path != self.path:
-            raise ValueError(("{!r} & {!r} is not a valid operation: " +
-                              "When combining ExpectedDifference operations with & they must refer to the same " +
-                              "attribute"
-                              ).format(self, other))
-        else:
-            return ComparisonExpectDifferenceMatches(
-                self.path, lambda x: self.matcher(x) and other.matcher(x), "{!r} & {!r}".format(self, other))
-
-    def __or__(self, other):
-        if not isinstance(other, ComparisonExpectDifferenceMatches):
-            raise ValueError("{!r} | {!r} is not a valid operation".format(self, other))
-        elif other.path != self.path:
-            raise ValueError(("{!r} | {!r} is not a valid operation: " +
-                              "When combining ExpectedDifference operations with | they must refer to the same " +
-                              "attribute"
-                              ).format(self, other))
-        else:
-            return ComparisonExpectDifferenceMatches(
-                self.path, lambda x: self.matcher(x) or other.matcher(x), "{!r} | {!r}".format(self, other))
-
     def __getattr__(self, attr):
         if attr.startswith('__') and attr.endswith('__'):
             raise AttributeError
@@ -193,6 +169,30 @@ class ComparisonExpectDifferenceMatches(ComparisonOption):
         self._repr = _repr
         super(ComparisonExpectDifferenceMatches, self).__init__(path)
 
+    def __and__(self, other):
+        if not isinstance(other, ComparisonExpectDifferenceMatches):
+            raise ValueError("{!r} & {!r} is not a valid operation".format(self, other))
+        elif other.path != self.path:
+            raise ValueError(("{!r} & {!r} is not a valid operation: " +
+                              "When combining ExpectedDifference operations with & they must refer to the same " +
+                              "attribute"
+                              ).format(self, other))
+        else:
+            return ComparisonExpectDifferenceMatches(
+                self.path, lambda x: self.matcher(x) and other.matcher(x), "{!r} & {!r}".format(self, other))
+
+    def __or__(self, other):
+        if not isinstance(other, ComparisonExpectDifferenceMatches):
+            raise ValueError("{!r} | {!r} is not a valid operation".format(self, other))
+        elif other.path != self.path:
+            raise ValueError(("{!r} | {!r} is not a valid operation: " +
+                              "When combining ExpectedDifference operations with | they must refer to the same " +
+                              "attribute"
+                              ).format(self, other))
+        else:
+            return ComparisonExpectDifferenceMatches(
+                self.path, lambda x: self.matcher(x) or other.matcher(x), "{!r} | {!r}".format(self, other))
+
     def __repr__(self):
         return self._repr
 
-- 
2.43.0


From 1c6326536414aeb2445d90b71b6da7ea4d3f0c3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:29:41 +0000
Subject: [PATCH 75/82] fix: grains made without a source or flow id had ids
 that could not be read

---
 mediagrains/grains/AudioGrain.py      | 4 ++--
 mediagrains/grains/CodedAudioGrain.py | 4 ++--
 mediagrains/grains/CodedVideoGrain.py | 4 ++--
 mediagrains/grains/EventGrain.py      | 4 ++--
 mediagrains/grains/VideoGrain.py      | 4 ++--
 5 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/mediagrains/grains/AudioGrain.py b/mediagrains/grains/AudioGrain.py
index 3f49a09..c54ec3b 100644
--- a/mediagrains/grains/AudioGrain.py
+++ b/mediagrains/grains/AudioGrain.py
@@ -130,8 +130,8 @@ sample_rate
                 "@_ns": "urn:x-ipstudio:ns:0.1",
                 "grain": {
                     'grain_type': "audio",
-                    'source_id': str(src_id),
-                    'flow_id': str(flow_id),
+                    'source_id': str(src_id if src_id is not None else UUID(int=0)),
+                    'flow_id': str(flow_id if flow_id is not None else UUID(int=0)),
                     'origin_timestamp': str(mediatimestamp(origin_timestamp)),
                     'sync_timestamp': str(mediatimestamp(sync_timestamp)),
                     'creation_timestamp': str(mediatimestamp(creation_timestamp)),
diff --git a/mediagrains/grains/CodedAudioGrain.py b/mediagrains/grains/CodedAudioGrain.py
index 72a170d..460c5a5 100644
--- a/mediagrains/grains/CodedAudioGrain.py
+++ b/mediagrains/grains/CodedAudioGrain.py
@@ -130,8 +130,8 @@ remainder
                 "@_ns": "urn:x-ipstudio:ns:0.1",
                 "grain": {
                     'grain_type': "coded_audio",
-                    'source_id': str(src_id),
-                    'flow_id': str(flow_id),
+                    'source_id': str(src_id if src_id is not None else UUID(int=0)),
+                    'flow_id': str(flow_id if flow_id is not None else UUID(int=0)),
                     'origin_timestamp': str(mediatimestamp(origin_timestamp)),
                     'sync_timestamp': str(mediatimestamp(sync_timestamp)),
                     'creation_timestamp': str(mediatimestamp(creation_timestamp)),
diff --git a/mediagrains/grains/CodedVideoGrain.py b/mediagrains/grains/CodedVideoGrain.py
index b3af93d..0009ef3 100644
--- a/mediagrains/grains/CodedVideoGrain.py
+++ b/mediagrains/grains/CodedVideoGrain.py
@@ -151,8 +151,8 @@ unit_offsets
                 "@_ns": "urn:x-ipstudio:ns:0.1",
                 "grain": {
                     "grain_type": "coded_video",
-                    "source_id": str(src_id),
-                    "flow_id": str(flow_id),
+                    "source_id": str(src_id if src_id is not None else UUID(int=0)),
+                    "flow_id": str(flow_id if flow_id is not None else UUID(int=0)),
                     "origin_timestamp": str(mediatimestamp(origin_timestamp)),
                     "sync_timestamp": str(mediatimestamp(sync_timestamp)),
                     "creation_timestamp": str(mediatimestamp(creation_timestamp)),
diff --git a/mediagrains/grains/EventGrain.py b/mediagrains/grains/EventGrain.py
index a1786aa..3165228 100644
--- a/mediagrains/grains/EventGrain.py
+++ b/mediagrains/grains/EventGrain.py
@@ -130,8 +130,8 @@ append(path, pre=None, post=None)
                 "@_ns": "urn:x-ipstudio:ns:0.1",
                 "grain": {
                     "grain_type": "event",
-                    "source_id": str(src_id),
-                    "flow_id": str(flow_id),
+                    "source_id": str(src_id if src_id is not None else UUID(int=0)),
+                    "flow_id": str(flow_id if flow_id is not None else UUID(int=0)),
                     "origin_timestamp": str(mediatimestamp(origin_timestamp)),
                     "sync_timestamp": str(mediatimestamp(sync_timestamp)),
                     "creation_timestamp": str(mediatimestamp(cts)),
diff --git a/mediagrains/grains/VideoGrain.py b/mediagrains/grains/VideoGrain.py
index e4c3af6..534d5e7 100644
--- a/mediagrains/grains/VideoGrain.py
+++ b/mediagrains/grains/VideoGrain.py
@@ -278,8 +278,8 @@ length
                 "@_ns": "urn:x-ipstudio:ns:0.1",
                 "grain": {
                     'grain_type': "video",
-                    'source_id': str(src_id),
-                    'flow_id': str(flow_id),
+                    'source_id': str(src_id if src_id is not None else UUID(int=0)),
+                    'flow_id': str(flow_id if flow_id is not None else UUID(int=0)),
                     'origin_timestamp': str(mediatimestamp(origin_timestamp)),
                     'sync_timestamp': str(mediatimestamp(sync_timestamp)),
                     'creation_timestamp': str(mediatimestamp(creation_timestamp)),
-- 
2.43.0


From 54f33dc3528c22d4f660d0d4c16365e9af9ca22f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:29:41 +0000
Subject: [PATCH 76/82] fix: a VideoGrain could not be made of metadata without
 a grain section

---
 mediagrains/grains/VideoGrain.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mediagrains/grains/VideoGrain.py b/mediagrains/grains/VideoGrain.py
index 534d5e7..e3825fa 100644
--- a/mediagrains/grains/VideoGrain.py
+++ b/mediagrains/grains/VideoGrain.py
@@ -425,7 +425,7 @@ length
                     })
             return components
 
-        if ("cog_frame" in meta['grain'] and
+        if ("grain" in meta and "cog_frame" in meta['grain'] and
                 ("components" not in meta['grain']['cog_frame'] or
                     len(meta['grain']['cog_frame']['components']) == 0)):
             meta['grain']['cog_frame']['components'] = components_for_format(cog_frame_format, width, height)
-- 
2.43.0


From 1572bd6b97ab3ca6f6f8d20d1a790eaf2d88f0b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:38:14 +0000
Subject: [PATCH 77/82] fix: H.264 streams with an unspecified extended sample
 aspect ratio could not be parsed

---
 mediagrains/utils/h264_parser.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/mediagrains/utils/h264_parser.py b/mediagrains/utils/h264_parser.py
index b0a7e5d..876486a 100644
--- a/mediagrains/utils/h264_parser.py
+++ b/mediagrains/utils/h264_parser.py
@@ -427,6 +427,8 @@ class H264Parser(object):
         ]
 
         if sps.aspect_ratio_idc == 255:  # extended SAR
+            if sps.sar_width == 0 or sps.sar_height == 0:  # unspecified
+                return Fraction(0, 1)
             return Fraction(sps.sar_width, sps.sar_height)
         elif sps.aspect_ratio_idc < len(aspect_ratios):
             return Fraction(aspect_ratios[sps.aspect_ratio_idc][0], aspect_ratios[sps.aspect_ratio_idc][1])
-- 
2.43.0


From cd30ba0960a4b3ce9e16eb7538f5923d9d31175e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:41:49 +0000
Subject: [PATCH 78/82] fix: values which do not fit in their field were
 written as others

---
 mediagrains/gsf.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/mediagrains/gsf.py b/mediagrains/gsf.py
index e276c30..7a485f3 100644
--- a/mediagrains/gsf.py
+++ b/mediagrains/gsf.py
@@ -1635,6 +1635,8 @@ class GSFEncodeAddToActiveDump(GSFEncodeError):
 
 
 def _encode_uint(val: int, size: int) -> bytes:
+    if not 0 <= val < (1 << (8*size)):
+        raise GSFEncodeError("{!r} does not fit in {} bytes".format(val, size))
     d = bytearray(size)
     for i in range(0, size):
         d[i] = (val & 0xFF)
@@ -1643,6 +1645,8 @@ def _encode_uint(val: int, size: int) -> bytes:
 
 
 def _encode_sint(val: int, size: int) -> bytes:
+    if not -(1 << (8*size - 1)) <= val < (1 << (8*size - 1)):
+        raise GSFEncodeError("{!r} does not fit in {} bytes".format(val, size))
     if val < 0:
         val = val + (1 << (8*size))
     return _encode_uint(val, size)
@@ -1662,6 +1666,8 @@ def _encode_string(val: str, max_size: int) -> bytes:
 
 
 def _encode_ts_v7(ts: Timestamp) -> bytes:
+    if ts.sign < 0:
+        raise GSFEncodeError("{!s} is negative, which version 7 files have no means to say".format(ts))
     return (_encode_uint(ts.sec, 6) +
             _encode_uint(ts.ns, 4))
 
-- 
2.43.0


From 52842565a514351732de3ef4dfe66393bdf60cb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:41:58 +0000
Subject: [PATCH 79/82] fix: a grain which can't be encoded made the encoder
 lose others

---
 mediagrains/gsf.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/mediagrains/gsf.py b/mediagrains/gsf.py
index 7a485f3..4905ded 100644
--- a/mediagrains/gsf.py
+++ b/mediagrains/gsf.py
@@ -1836,8 +1836,16 @@ class OpenGSFEncoderBase(object):
 
     def _encode_all_grains(self):
         data = b''
-        for seg in self._segments.values():
-            data += seg.encode_all_grains()
+        before = [(seg, seg._grains, seg._write_count) for seg in self._segments.values()]
+        try:
+            for seg in self._segments.values():
+                data += seg.encode_all_grains()
+        except BaseException:
+            # None of them are going to be written
+            for (seg, grains, write_count) in before:
+                seg._grains = grains
+                seg._write_count = write_count
+            raise
         return data
 
 
-- 
2.43.0


From 71aa4ff7546a7cc44c2433f9558c3c8dec070365 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:50:13 +0000
Subject: [PATCH 80/82] fix: a segment which could not be made used up a local
 id

---
 mediagrains/gsf.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mediagrains/gsf.py b/mediagrains/gsf.py
index 4905ded..df35117 100644
--- a/mediagrains/gsf.py
+++ b/mediagrains/gsf.py
@@ -1773,13 +1773,13 @@ class OpenGSFEncoderBase(object):
                 "Cannot add a new segment {} ({!s}) to an encoder that is currently dumping".format(local_id, id))
 
         local_id = _choose_local_id(local_id, self._next_local, self._segments)
-        self._next_local = max(self._next_local, local_id + 1)
 
         if id is None:
             id = uuid1()
 
         seg = GSFEncoderSegment(id, local_id, tags=tags, parent=self)
         self._segments[local_id] = seg
+        self._next_local = max(self._next_local, local_id + 1)
         return seg
 
     def _get_segment(self, segment_id: Optional[UUID], segment_local_id: Optional[int]) -> "GSFEncoderSegment":
@@ -2291,13 +2291,13 @@ class GSFEncoder(object):
                 "Cannot add a new segment {} ({!s}) to an encoder that is currently dumping".format(local_id, id))
 
         local_id = _choose_local_id(local_id, self._next_local, self._segments)
-        self._next_local = max(self._next_local, local_id + 1)
 
         if id is None:
             id = uuid1()
 
         seg = GSFEncoderSegment(id, local_id, tags=tags, parent=self)
         self._segments[local_id] = seg
+        self._next_local = max(self._next_local, local_id + 1)
         return seg
 
     def add_grain(self,
-- 
2.43.0


From bf3b4c968b4be3e105b77af8093843df01aff513 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:43:32 +0000
Subject: [PATCH 81/82] fix: refuse ADTS headers with a frame size smaller than
 the header

---
 mediagrains/utils/adts_aac_parser.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/mediagrains/utils/adts_aac_parser.py b/mediagrains/utils/adts_aac_parser.py
index eb96a71..11c3928 100644
--- a/mediagrains/utils/adts_aac_parser.py
+++ b/mediagrains/utils/adts_aac_parser.py
@@ -59,6 +59,8 @@ class ADTSAACParser(object):
                 (frame_data[4] << 3) |
                 ((frame_data[5] >> 5) & 0x07)
             )
+            if frame_size < MIN_ADTS_HEADER_SIZE:
+                raise ValueError("Invalid ADTS frame size: {}".format(frame_size))
 
             frame_info = FrameInfo(frame_size, object_type, sample_rate, channels)
 
-- 
2.43.0


From 99b21f7946474b42af9432b56285b7223fe0184b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:16:52 +0000
Subject: [PATCH 82/82] fix: gsf_probe fails for files followed by others with
 segments of their own

The segments were known from the header of the first file only, so the
first grain of any other segment raised a KeyError.
---
 mediagrains/tools/extract_from_gsf.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/mediagrains/tools/extract_from_gsf.py b/mediagrains/tools/extract_from_gsf.py
index dfdef42..9d7dd42 100644
--- a/mediagrains/tools/extract_from_gsf.py
+++ b/mediagrains/tools/extract_from_gsf.py
@@ -67,12 +67,17 @@ def gsf_probe():
 
     with file_or_pipe(args.input_file, "rb") as input_data:
         decoder = GSFDecoder(file_data=input_data)
-        file_data = decoder.decode_file_headers()
+        file_data = dict(decoder.decode_file_headers())
 
         file_data["segments"] = {segment["local_id"]: segment for segment in file_data["segments"]}
         file_data["created"] = str(file_data["created"])  # Work around mediajson's inability to serialize datetimes
 
         for grain, local_id in decoder.grains(load_lazily=True):
+            if local_id not in file_data["segments"]:
+                # Another file follows, which has segments of its own
+                for segment in decoder._open_session.file_headers["segments"]:
+                    file_data["segments"].setdefault(segment["local_id"], segment)
+
             this_segment = file_data["segments"][local_id]
 
             if args.all_grains:
-- 
2.43.0

