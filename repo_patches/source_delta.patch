From 5f58c1170ccbef4a7e7968eaa689324a5681c55a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:06:58 +0000
Subject: [PATCH 01/42] fix: mask_reset gives an all True boolean mask whatever
 the data is

Comparing the array with itself made the mask False where the first
channel holds nan, and the mask of an empty pack was a float array.
---
 channelpack/pack.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/channelpack/pack.py b/channelpack/pack.py
index f61ae42..a0ddd5e 100644
--- a/channelpack/pack.py
+++ b/channelpack/pack.py
@@ -316,10 +316,10 @@ class ChannelPack(object):
         """
 
         if not self.data:
-            self.mask = np.array([])
+            self.mask = np.array([], dtype=bool)
         else:
             lowest = sorted(self.data)[0]
-            self.mask = self.data[lowest] == self.data[lowest]
+            self.mask = np.ones(len(self.data[lowest]), dtype=bool)
 
     def duration(self, duration, samplerate=1, mindur=True):
         """Require each true part to be at least duration long.
-- 
2.43.0


From 2ca9ad51596435c48c0c9576ebec84b1bd84bb5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:06:58 +0000
Subject: [PATCH 02/42] fix: assigning data or names of another pack copies and
 resets the mask

Data that already was of the internal dict type (other.data) was taken
as is, without the documented mask reset, and the dict was shared, so
that a later append to one pack changed the other. append_pack to an
empty pack shared the dicts of other the same way.
---
 channelpack/pack.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/channelpack/pack.py b/channelpack/pack.py
index a0ddd5e..fe3f5d9 100644
--- a/channelpack/pack.py
+++ b/channelpack/pack.py
@@ -212,12 +212,12 @@ class ChannelPack(object):
 
         """
         self.FALLBACK_PREFIX = 'ch'
+        self.mindur = None
         self.data = NpDict(data or {})
         self.filenames = []
         self.fn = ''             # Possible file name
         self.names = IntKeyDict(names or {})
         self.nof = None
-        self.mindur = None
         self.mask_reset()       # set self.mask
 
     def __setattr__(self, name, value):
@@ -239,10 +239,10 @@ class ChannelPack(object):
             object.__setattr__(self, name, value)
             if self.mindur is not None:
                 self.duration(self.mindur, samplerate=1, mindur=True)
-        elif name == 'data' and not isinstance(value, NpDict):
+        elif name == 'data':
             object.__setattr__(self, name, NpDict(value))
             self.mask_reset()
-        elif name == 'names' and not isinstance(value, IntKeyDict):
+        elif name == 'names':
             object.__setattr__(self, name, IntKeyDict(value))
         elif name == 'fn':
             if not isinstance(value, str):
-- 
2.43.0


From 3a67e16ea332ead33a7500b28daa79e0b59f0899 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:06:58 +0000
Subject: [PATCH 03/42] fix: append_pack checks both dicts before changing
 anything

When the names dicts did not align, ValueError was raised after data
had been appended already, leaving a pack with data and mask of
different sizes.
---
 channelpack/pack.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/channelpack/pack.py b/channelpack/pack.py
index fe3f5d9..5a7eeea 100644
--- a/channelpack/pack.py
+++ b/channelpack/pack.py
@@ -288,19 +288,21 @@ class ChannelPack(object):
 
         """
 
+        if self.data and other.data:
+            if not set(self.data.keys()) == set(other.data.keys()):
+                raise ValueError('Data dicts set of keys not equal')
+        if self.names and other.names:
+            if not set(self.names.keys()) == set(other.names.keys()):
+                raise ValueError('names dicts set of keys not equal')
+
         if not self.data:
             self.data = other.data
         elif other.data:
-            if not set(self.data.keys()) == set(other.data.keys()):
-                raise ValueError('Data dicts set of keys not equal')
             for key in other.data:
                 self.data[key] = np.append(self.data[key], other.data[key])
 
         if not self.names:
             self.names = other.names
-        elif other.names:
-            if not set(self.names.keys()) == set(other.names.keys()):
-                raise ValueError('names dicts set of keys not equal')
 
         self.filenames.extend(other.filenames)
 
-- 
2.43.0


From decddb11bbcbf4616ed4c376b3b70e06fe6a228a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:06:58 +0000
Subject: [PATCH 04/42] fix: the pack keeps its own copy of an assigned mask

duration and mindur update the mask in place, which changed the array
of the caller, and with it the mask of any other pack the same array
was assigned to, without updating the parts of that pack.
---
 channelpack/pack.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/channelpack/pack.py b/channelpack/pack.py
index 5a7eeea..7ba6e19 100644
--- a/channelpack/pack.py
+++ b/channelpack/pack.py
@@ -228,7 +228,7 @@ class ChannelPack(object):
         elif name == 'mask' and not isinstance(value, np.ndarray):
             raise TypeError('Expected a numpy array')
         elif name == 'mask':
-            object.__setattr__(self, name, value)
+            object.__setattr__(self, name, value.copy())
             self._cached_slicelist = self._slicelist()
             if self.mindur is not None:
                 self.duration(self.mindur, samplerate=1, mindur=True)
-- 
2.43.0


From 35ded856b8d9933f79979d465248dd4454b04334 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:06:58 +0000
Subject: [PATCH 05/42] fix: startstop result is a bool array for empty
 sequences too

---
 channelpack/pack.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/channelpack/pack.py b/channelpack/pack.py
index 7ba6e19..ac0e886 100644
--- a/channelpack/pack.py
+++ b/channelpack/pack.py
@@ -391,7 +391,8 @@ class ChannelPack(object):
 
         """
 
-        result = np.array(tuple(datautils.startstop_bool(startb, stopb)))
+        result = np.array(tuple(datautils.startstop_bool(startb, stopb)),
+                          dtype=bool)
         if apply:
             self.mask &= result
         return result
-- 
2.43.0


From f44111fe032d7d08d75aa27163f508bece4c0253 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:06:58 +0000
Subject: [PATCH 06/42] fix: a fallback string has to match completely

pack('ch1foo') or pack('ch1 ') gave the data of channel 1 in place of
KeyError.
---
 channelpack/pack.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/channelpack/pack.py b/channelpack/pack.py
index ac0e886..fb86fb4 100644
--- a/channelpack/pack.py
+++ b/channelpack/pack.py
@@ -552,7 +552,7 @@ class ChannelPack(object):
         # not in data, not a good name in names, last chance is a
         # fallback string
 
-        prefix_rx = self.FALLBACK_PREFIX + r'(\d+)'
+        prefix_rx = re.escape(self.FALLBACK_PREFIX) + r'(\d+)\Z'
         m = re.match(prefix_rx, ch)
 
         if m:
-- 
2.43.0


From ffd63b0e7677341d865b855fda5850a690860370 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:06:58 +0000
Subject: [PATCH 07/42] fix: records gets its columns by key

With fallback=True the generated names were looked up as channel names
first, so a pack having a name like 'ch0' on another key produced
records with the wrong column.
---
 channelpack/pack.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/channelpack/pack.py b/channelpack/pack.py
index fb86fb4..44aee91 100644
--- a/channelpack/pack.py
+++ b/channelpack/pack.py
@@ -504,18 +504,19 @@ class ChannelPack(object):
 
         """
 
-        names = [self.names[key] for key in sorted(self.names)]
+        keys = sorted(self.names)
+        names = [self.names[key] for key in keys]
         if fallback:
-            names = [self.FALLBACK_PREFIX + str(key) for key in
-                     sorted(self.data)]
+            keys = sorted(self.data)
+            names = [self.FALLBACK_PREFIX + str(key) for key in keys]
 
         try:
             Record = namedtuple('Record', names)
         except ValueError:      # bad names
             raise ValueError('Includes invalid names: {}'.format(names))
 
-        for record in map(Record._make, zip(*[self(name, part=part, nof=nof)
-                                              for name in names])):
+        for record in map(Record._make, zip(*[self(key, part=part, nof=nof)
+                                              for key in keys])):
             yield record
 
     def _datakey(self, ch):
-- 
2.43.0


From 44300998c761f11439b7f2a5238eb6fcd20c6a3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:06:58 +0000
Subject: [PATCH 08/42] fix: dict update with iterators and mappings, in-place
 merge, setdefault

An iterator of pairs was consumed by the key check and then silently
gave an empty names dict. Mappings other than dict were not checked
(names) or not accepted (data), in-place merge bypassed key check and
array conversion, and setdefault did not return the value.
---
 channelpack/pack.py | 32 +++++++++++++++++++++++++++-----
 1 file changed, 27 insertions(+), 5 deletions(-)

diff --git a/channelpack/pack.py b/channelpack/pack.py
index 44aee91..017dfc0 100644
--- a/channelpack/pack.py
+++ b/channelpack/pack.py
@@ -27,6 +27,8 @@ class IntKeyDict(dict):
 
     def update(self, *args, **kwargs):
 
+        args = self._reiterable(args)
+
         # only concern about keys being integers, let parent handle
         # other dict violations
         if args and isinstance(args[0], dict):
@@ -51,8 +53,25 @@ class IntKeyDict(dict):
 
     def setdefault(self, key, value=None):
         if not isinstance(key, int):
-            raise TypeError(self._key_error_message)
-        super(IntKeyDict, self).setdefault(key, value)
+            raise TypeError(self._key_error_message(key))
+        return super(IntKeyDict, self).setdefault(key, value)
+
+    def __ior__(self, other):
+        self.update(other)
+        return self
+
+    def _reiterable(self, args):
+        """Return args with a first element that can be looped repeatedly.
+
+        A mapping is replaced with a dict, an iterator with a list.
+        """
+        if not args or isinstance(args[0], (dict, str)):
+            return args
+        elif hasattr(args[0], 'keys'):
+            return (dict(args[0]),) + tuple(args[1:])
+        elif hasattr(args[0], '__iter__'):
+            return (list(args[0]),) + tuple(args[1:])
+        return args
 
     def _key_error_message(self, key):
         return 'Only integer keys accepted, got: {}'.format(repr(key))
@@ -78,6 +97,7 @@ class NpDict(IntKeyDict):
 
     def update(self, *args, **kwargs):
 
+        args = self._reiterable(args)
         proxyargs = []
         proxykwargs = {}
 
@@ -121,9 +141,11 @@ class NpDict(IntKeyDict):
         super(NpDict, self).update(*proxyargs, **proxykwargs)
 
     def setdefault(self, key, value=None):
-        array = np.array(value, copy=False)
-        self._check_raise_ndim(array, value)
-        super(NpDict, self).setdefault(key, array)  # return? FIXME
+        array = value
+        if key not in self:     # else value is not used
+            array = np.array(value, copy=False)
+            self._check_raise_ndim(array, value)
+        return super(NpDict, self).setdefault(key, array)
 
     def _check_raise_ndim(self, array, value):
         """Check array for ndim == 1 and raise error if fail.
-- 
2.43.0


From 3ccc179775577bf1e35a795fe333e3471e8da31b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:08:03 +0000
Subject: [PATCH 09/42] fix: append_pack leaves the pack unchanged if arrays
 can not be joined

Channels were replaced one by one, so an error from numpy on one of
them left the ones before appended already.
---
 channelpack/pack.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/channelpack/pack.py b/channelpack/pack.py
index 017dfc0..5ab59f2 100644
--- a/channelpack/pack.py
+++ b/channelpack/pack.py
@@ -320,8 +320,8 @@ class ChannelPack(object):
         if not self.data:
             self.data = other.data
         elif other.data:
-            for key in other.data:
-                self.data[key] = np.append(self.data[key], other.data[key])
+            self.data.update({key: np.append(self.data[key], other.data[key])
+                              for key in other.data})
 
         if not self.names:
             self.names = other.names
-- 
2.43.0


From 2fa2121deb3ffee6d57db0929b5aaa7c31f27136 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:12:53 +0000
Subject: [PATCH 10/42] fix: textpack usecols in any order refers to the same
 columns

The fields of a line are picked in column order but were paired with
usecols in the order given, so usecols=(2, 0) swapped the columns.
---
 channelpack/readtext.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/channelpack/readtext.py b/channelpack/readtext.py
index f593276..c383436 100644
--- a/channelpack/readtext.py
+++ b/channelpack/readtext.py
@@ -343,7 +343,8 @@ def textpack(fname, names=None, delimiter=None, skiprows=0, usecols=None,
     """
 
     if usecols is not None:
-        usecols = (usecols,) if type(usecols) is int else usecols
+        usecols = ((usecols,) if type(usecols) is int
+                   else sorted(set(usecols)))
 
     if names:
         usecols = sorted(names)
-- 
2.43.0


From 26c9e0e007db81cc0bfc5453307730a75e934d79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:12:53 +0000
Subject: [PATCH 11/42] fix: textpack debug output when the first line of data
 fails

There was no successful line to report so KeyError was raised in place
of the error it should give information about.
---
 channelpack/readtext.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/channelpack/readtext.py b/channelpack/readtext.py
index c383436..e94321b 100644
--- a/channelpack/readtext.py
+++ b/channelpack/readtext.py
@@ -361,7 +361,7 @@ def textpack(fname, names=None, delimiter=None, skiprows=0, usecols=None,
                                 bytehint=bytehint, converters=converters,
                                 stripstrings=stripstrings, hasnames=hasnames)
 
-        debugdict = dict(funcs=next(linetupler))
+        debugdict = dict(funcs=next(linetupler), linum=-1)
 
         if hasnames and usecols is not None:
             for col, name in zip(usecols, next(linetupler)):
-- 
2.43.0


From cd0366b577134ff904408072ae8693ee01a77b4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:12:53 +0000
Subject: [PATCH 12/42] fix: skip lines of only tabs when text is delimited by
 white space

With no delimiter given, tabs were not stripped off, so a line of tabs
was not recognised as blank. It gave an empty record which made all the
data disappear.
---
 channelpack/readtext.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/channelpack/readtext.py b/channelpack/readtext.py
index e94321b..14e17f0 100644
--- a/channelpack/readtext.py
+++ b/channelpack/readtext.py
@@ -461,11 +461,11 @@ def linetuples(fo, bytehint=False, delimiter=None, usecols=None,
 
     # don't strip off tabs or some possible white space delimiter
     if not bytehint:
-        stripchars = string.whitespace.replace(delimiter or '\t', '')
+        stripchars = string.whitespace.replace(delimiter or '', '')
     elif bytehint:
         whites = string.whitespace.encode('ascii')
         # assuming delimiter is bytes or None
-        stripchars = whites.replace(delimiter or b'\t', b'')
+        stripchars = whites.replace(delimiter or b'', b'')
 
     if hasnames:
         fieldnames = [field.strip() for field in
-- 
2.43.0


From ac5093c067696acf4d0220a5ee603b9c99e9bbfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:28:07 +0000
Subject: [PATCH 13/42] fix: lazy_textpack reads a stream from where it
 inspected it

Lines were inspected from the current position of a given stream, but
the data was then read from the start of it, with skiprows and
delimiter belonging to something else.
---
 channelpack/readtext.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/channelpack/readtext.py b/channelpack/readtext.py
index 14e17f0..bf9a80f 100644
--- a/channelpack/readtext.py
+++ b/channelpack/readtext.py
@@ -261,6 +261,7 @@ def lazy_textpack(fname, parselines=25, **textkwargs):
     encoding = textkwargs.get('encoding', locale.getpreferredencoding())
     with contextopen(fname, encoding=encoding) as context:
         fo = context.fo
+        start = fo.tell()
         if context.bytehint:
             derived = preparse([fo.readline().decode(encoding)
                                 for i in range(parselines)])
@@ -272,7 +273,7 @@ def lazy_textpack(fname, parselines=25, **textkwargs):
                     derived['converters'][key] = _floatit_bytes
         else:
             derived = preparse([fo.readline() for i in range(parselines)])
-        fo.seek(0)
+        fo.seek(start)
         derived.update(textkwargs)
 
         if 'usecols' in textkwargs and 'names' not in textkwargs:
-- 
2.43.0


From dd92c4f1c04857b0b188e956b0d494b93c2066f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:30:49 +0000
Subject: [PATCH 14/42] fix: dbfpack with names and deleted records

When a record was marked as deleted the reader did not move on to the
end of it, unless the last field was among the ones to read, so all
records after it were read from the wrong place.
---
 channelpack/dbf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/channelpack/dbf.py b/channelpack/dbf.py
index 9cd7e25..6edae71 100644
--- a/channelpack/dbf.py
+++ b/channelpack/dbf.py
@@ -127,6 +127,7 @@ def dbfrecords(f, names):
         for field in selfields:
             f.seek(refaddr + field.seekme)
             record.append(struct.unpack(field.fmt, f.read(field.fmtsiz))[0])
+        f.seek(refaddr + fields[-1].seekme + fields[-1].fmtsiz)
 
         if record[0] != b' ':
             continue                        # deleted record
@@ -159,7 +160,6 @@ def dbfrecords(f, names):
             else:
                 value = value.decode('ascii')  # type = 'C' or other type
             result.append(value)
-        f.seek(refaddr + fields[-1].seekme + fields[-1].fmtsiz)
         yield result
 
 
-- 
2.43.0


From 6853d9625554f2917f7c8f14a29285254c7dcd4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:30:49 +0000
Subject: [PATCH 15/42] fix: dbfpack with names reads a stream from its current
 position

The field names were read from the current position of a given stream
but the records from the start of it.
---
 channelpack/dbf.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/channelpack/dbf.py b/channelpack/dbf.py
index 6edae71..0170160 100644
--- a/channelpack/dbf.py
+++ b/channelpack/dbf.py
@@ -191,9 +191,10 @@ def dbfpack(dbf, names=None):
 
     with contextopen(dbf, 'rb') as context:
         fo = context.fo
+        start = fo.tell()
         sniffnames = dbfreader(fo)
         allnames = next(sniffnames)
-        fo.seek(0)
+        fo.seek(start)
         dbfrecs = dbfrecords(fo, names)
         next(dbfrecs)
         next(dbfrecs)
-- 
2.43.0


From 575568382fc142703f9bd8c232038e125fc91d4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:46:58 +0000
Subject: [PATCH 16/42] fix: count UTF-16 units in formula string results

A STRING record counts 16-bit units, and a CONTINUE break may fall inside a
surrogate pair. Counting decoded characters made every workbook with such a
result unreadable.
---
 channelpack/xlrd/sheet.py | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/channelpack/xlrd/sheet.py b/channelpack/xlrd/sheet.py
index a831398..c3261f8 100644
--- a/channelpack/xlrd/sheet.py
+++ b/channelpack/xlrd/sheet.py
@@ -1516,17 +1516,21 @@ class Sheet(BaseObject):
         if bv < 80:
             enc = bk.encoding or bk.derive_encoding()
         nchars_found = 0
-        result = UNICODE_LITERAL("")
+        result = b""
         while 1:
+            chunk = data[offset:]
             if bv >= 80:
                 flag = BYTES_ORD(data[offset]) & 1
-                enc = ("latin_1", "utf_16_le")[flag]
-                offset += 1
-            chunk = unicode(data[offset:], enc)
+                chunk = data[offset + 1:]
+                if not flag:
+                    chunk = unicode(chunk, "latin_1").encode("utf_16_le")
+                enc = "utf_16_le"
+                nchars_found += len(chunk) >> 1
+            else:
+                nchars_found += len(unicode(chunk, enc))
             result += chunk
-            nchars_found += len(chunk)
             if nchars_found == nchars_expected:
-                return result
+                return unicode(result, enc)
             if nchars_found > nchars_expected:
                 msg = ("STRING/CONTINUE: expected %d chars, found %d"
                     % (nchars_expected, nchars_found))
-- 
2.43.0


From 430db52b5f0a2e59822195d35068a91d0088b8ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:46:58 +0000
Subject: [PATCH 17/42] fix: shared string with a surrogate pair broken over
 CONTINUE records

---
 channelpack/xlrd/book.py | 17 ++++++-----------
 1 file changed, 6 insertions(+), 11 deletions(-)

diff --git a/channelpack/xlrd/book.py b/channelpack/xlrd/book.py
index 4851236..e248080 100644
--- a/channelpack/xlrd/book.py
+++ b/channelpack/xlrd/book.py
@@ -1438,7 +1438,7 @@ def unpack_SST_table(datatab, nstrings):
         if options & 0x04: # phonetic
             phosz = local_unpack('<i', data[pos:pos+4])[0]
             pos += 4
-        accstrg = UNICODE_LITERAL('')
+        accraw = b''
         charsgot = 0
         while 1:
             charsneed = nchars - charsgot
@@ -1447,22 +1447,16 @@ def unpack_SST_table(datatab, nstrings):
                 charsavail = local_min((datalen - pos) >> 1, charsneed)
                 rawstrg = data[pos:pos+2*charsavail]
                 # if DEBUG: print "SST U16: nchars=%d pos=%d rawstrg=%r" % (nchars, pos, rawstrg)
-                try:
-                    accstrg += unicode(rawstrg, "utf_16_le")
-                except:
-                    # print "SST U16: nchars=%d pos=%d rawstrg=%r" % (nchars, pos, rawstrg)
-                    # Probable cause: dodgy data e.g. unfinished surrogate pair.
-                    # E.g. file unicode2.xls in pyExcelerator's examples has cells containing
-                    # unichr(i) for i in range(0x100000)
-                    # so this will include 0xD800 etc
-                    raise
+                # Decoded when complete: a surrogate pair may be broken
+                # over two records.
+                accraw += rawstrg
                 pos += 2*charsavail
             else:
                 # Note: this is COMPRESSED (not ASCII!) encoding!!!
                 charsavail = local_min(datalen - pos, charsneed)
                 rawstrg = data[pos:pos+charsavail]
                 # if DEBUG: print "SST CMPRSD: nchars=%d pos=%d rawstrg=%r" % (nchars, pos, rawstrg)
-                accstrg += unicode(rawstrg, latin_1)
+                accraw += unicode(rawstrg, latin_1).encode("utf_16_le")
                 pos += charsavail
             charsgot += charsavail
             if charsgot == nchars:
@@ -1472,6 +1466,7 @@ def unpack_SST_table(datatab, nstrings):
             datalen = len(data)
             options = local_BYTES_ORD(data[0])
             pos = 1
+        accstrg = unicode(accraw, "utf_16_le")
 
         if rtcount:
             runs = []
-- 
2.43.0


From 30d7905e7132dac8bab5631e5e923a4995a62a8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:46:58 +0000
Subject: [PATCH 18/42] fix: phonetic data of a shared string spanning several
 CONTINUE records

---
 channelpack/xlrd/book.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/channelpack/xlrd/book.py b/channelpack/xlrd/book.py
index e248080..db0a816 100644
--- a/channelpack/xlrd/book.py
+++ b/channelpack/xlrd/book.py
@@ -1481,7 +1481,7 @@ def unpack_SST_table(datatab, nstrings):
             richtext_runs[len(strings)] = runs
 
         pos += phosz # size of the phonetic stuff to skip
-        if pos >= datalen:
+        while pos >= datalen:
             # adjust to correct position in next record
             pos = pos - datalen
             datainx += 1
@@ -1490,5 +1490,6 @@ def unpack_SST_table(datatab, nstrings):
                 datalen = len(data)
             else:
                 assert _unused_i == nstrings - 1
+                break
         strappend(accstrg)
     return strings, richtext_runs
-- 
2.43.0


From d3ae153a58f914b5ecb445404235e67e028820dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:53:01 +0000
Subject: [PATCH 19/42] fix: a cyclic short sector chain is an error

The sectors of a short stream are not marked as seen, so a chain that led
back into itself was followed forever.
---
 channelpack/xlrd/compdoc.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/channelpack/xlrd/compdoc.py b/channelpack/xlrd/compdoc.py
index 412a89e..096abce 100644
--- a/channelpack/xlrd/compdoc.py
+++ b/channelpack/xlrd/compdoc.py
@@ -310,6 +310,8 @@ class CompDoc(object):
                     if self.seen[s]:
                         raise CompDocError("%s corruption: seen[%d] == %d" % (name, s, self.seen[s]))
                     self.seen[s] = seen_id
+                elif len(sectors) >= len(sat):
+                    raise CompDocError("%s corruption: sector chain does not end" % name)
                 start_pos = base + s * sec_size
                 grab = sec_size
                 if grab > todo:
-- 
2.43.0


From e29f3bb5aa5c22dce12aa6853d0911522e23c0ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:58:56 +0000
Subject: [PATCH 20/42] fix: names of columns after ZZ

colname (and so cellname and cellnameabs) raised IndexError for column
702 and above, which xlsx sheets can have.
---
 channelpack/xlrd/formula.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/channelpack/xlrd/formula.py b/channelpack/xlrd/formula.py
index e26639b..93c094c 100644
--- a/channelpack/xlrd/formula.py
+++ b/channelpack/xlrd/formula.py
@@ -2104,7 +2104,7 @@ def colname(colx):
         return alphabet[colx]
     else:
         xdiv26, xmod26 = divmod(colx, 26)
-        return alphabet[xdiv26 - 1] + alphabet[xmod26]
+        return colname(xdiv26 - 1) + alphabet[xmod26]
 
 def rangename2d(rlo, rhi, clo, chi, r1c1=0):
     """ ``(5, 20, 7, 10)`` => ``'$H$6:$J$20'`` """
-- 
2.43.0


From 8c28ac02b2baacb0534c3d70f58e083004b25110 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:01:33 +0000
Subject: [PATCH 21/42] fix: a sheet column of mixed types keeps its values

Numpy made text of the numbers and booleans of a column that also had
text, and numbers of the booleans of a column that also had numbers,
unless a missing cell or a date happened to be there too.
---
 channelpack/readxl.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/channelpack/readxl.py b/channelpack/readxl.py
index fa06214..740ae92 100644
--- a/channelpack/readxl.py
+++ b/channelpack/readxl.py
@@ -91,6 +91,8 @@ def sheet_columns(ws, startref, stopref, usecols):
                     value = value == 1
                 vals.append(value)
 
+            if len(typeset) > 1:  # no conversion to some common type
+                vals = np.array(vals, dtype=object)
             yield vals
 
 
-- 
2.43.0


From 70215f72a61fd44e0b442bed8e74762cea09c3c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:06:19 +0000
Subject: [PATCH 22/42] fix: a formula string cell without a value has the
 value empty string

The value was None, for a cell of type text.
---
 channelpack/xlrd/xlsx.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/channelpack/xlrd/xlsx.py b/channelpack/xlrd/xlsx.py
index a1ca2dd..e9c83af 100644
--- a/channelpack/xlrd/xlsx.py
+++ b/channelpack/xlrd/xlsx.py
@@ -685,7 +685,7 @@ class X12Sheet(X12General):
                         bad_child_tag(child_tag)
                 # assert tvalue is not None and formula is not None
                 # Yuk. Fails with file created by gnumeric -- no tvalue!
-                self.sheet.put_cell(rowx, colx, XL_CELL_TEXT, tvalue, xf_index)
+                self.sheet.put_cell(rowx, colx, XL_CELL_TEXT, tvalue or '', xf_index)
             elif cell_type == "b":
                 # b = boolean
                 # <v> child contains "0" or "1"
-- 
2.43.0


From 1164ba42036d8c1b406ae3d61f429e39e8afe8a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:06:19 +0000
Subject: [PATCH 23/42] fix: sheet relationships and comments with upper case
 in the part name

open_workbook raised KeyError for a part like
xl/worksheets/_rels/Sheet1.xml.rels. Part names are case insensitive.
---
 channelpack/xlrd/xlsx.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/channelpack/xlrd/xlsx.py b/channelpack/xlrd/xlsx.py
index e9c83af..a385105 100644
--- a/channelpack/xlrd/xlsx.py
+++ b/channelpack/xlrd/xlsx.py
@@ -813,15 +813,16 @@ def open_workbook_2007_xml(zf,
 
         rels_fname = 'xl/worksheets/_rels/%s.rels' % fname.rsplit('/', 1)[-1]
         if rels_fname in component_names:
-            zfrels = zf.open(rels_fname)
+            zfrels = zf.open(component_names[rels_fname])
             x12sheet.process_rels(zfrels)
             del zfrels
 
         for relid, reltype in x12sheet.relid2reltype.items():
             if reltype == 'comments':
                 comments_fname = x12sheet.relid2path.get(relid)
+                comments_fname = comments_fname and X12Book.convert_filename(comments_fname)
                 if comments_fname and comments_fname in component_names:
-                    comments_stream = zf.open(comments_fname)
+                    comments_stream = zf.open(component_names[comments_fname])
                     x12sheet.process_comments_stream(comments_stream)
                     del comments_stream
 
-- 
2.43.0


From 6712e959468039e7f7842e9a2cc1c99c013b1444 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:09:38 +0000
Subject: [PATCH 24/42] fix: zeros for fractions of a second are not number
 placeholders

A format like ss.00 or h:mm:ss.00000 was taken for a number format, since
it has as many zeros as date letters.
---
 channelpack/xlrd/formatting.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/channelpack/xlrd/formatting.py b/channelpack/xlrd/formatting.py
index ca637b8..5e73769 100644
--- a/channelpack/xlrd/formatting.py
+++ b/channelpack/xlrd/formatting.py
@@ -453,6 +453,7 @@ non_date_formats = {
 }
 
 fmt_bracketed_sub = re.compile(r'\[[^]]*\]').sub
+fmt_fraction_sub = re.compile(r'([sS])\.0+').sub
 
 # Boolean format strings (actual cases)
 # '"Yes";"Yes";"No"'
@@ -492,6 +493,7 @@ def is_date_format_string(book, fmt):
     if book.verbosity >= 4:
         print("is_date_format_string: reduced format is %s" % REPR(s), file=book.logfile)
     s = fmt_bracketed_sub('', s)
+    s = fmt_fraction_sub(r'\1', s) # fractions of a second
     if s in non_date_formats:
         return False
     state = 0
-- 
2.43.0


From 0ad5a5169e28ddc516bef14e5a47448ca90c659b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:19:12 +0000
Subject: [PATCH 25/42] fix: close the file if it can not be read when opened

---
 channelpack/readtext.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/channelpack/readtext.py b/channelpack/readtext.py
index bf9a80f..00ffa2b 100644
--- a/channelpack/readtext.py
+++ b/channelpack/readtext.py
@@ -219,9 +219,14 @@ class contextopen(object):
             except AttributeError:
                 pass
 
-        tell = self.fo.tell()
-        self.bytehint = type(self.fo.read(1)) is bytes
-        self.fo.seek(tell)
+        try:
+            tell = self.fo.tell()
+            self.bytehint = type(self.fo.read(1)) is bytes
+            self.fo.seek(tell)
+        except BaseException:
+            if self.closeit:
+                self.fo.close()
+            raise
 
     def __enter__(self):
         return self
-- 
2.43.0


From 8a2a49db949dd75cb5d76f9fcc1be4a78ffa9017 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:19:49 +0000
Subject: [PATCH 26/42] fix: do not leave an xlsx file open

---
 channelpack/xlrd/__init__.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/channelpack/xlrd/__init__.py b/channelpack/xlrd/__init__.py
index 5153bf2..bbae2ce 100644
--- a/channelpack/xlrd/__init__.py
+++ b/channelpack/xlrd/__init__.py
@@ -111,10 +111,10 @@ def open_workbook(filename=None,
         with open(filename, "rb") as f:
             peek = f.read(peeksz)
     if peek == b"PK\x03\x04": # a ZIP file
-        if file_contents:
-            zf = zipfile.ZipFile(timemachine.BYTES_IO(file_contents))
-        else:
-            zf = zipfile.ZipFile(filename)
+        if not file_contents:
+            with open(filename, "rb") as f:
+                file_contents = f.read()
+        zf = zipfile.ZipFile(timemachine.BYTES_IO(file_contents))
 
         # Workaround for some third party files that use forward slashes and
         # lower case names. We map the expected name in lowercase to the
-- 
2.43.0


From df6bad9007011695a51c9c2d7eb6adb6beb60eb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:18:56 +0000
Subject: [PATCH 27/42] fix: xlsx comments with an absolute part name are not
 lost

A relationship target starting with a slash is relative to the package, as
it already is for the sheets.
---
 channelpack/xlrd/xlsx.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/channelpack/xlrd/xlsx.py b/channelpack/xlrd/xlsx.py
index a385105..101ffc9 100644
--- a/channelpack/xlrd/xlsx.py
+++ b/channelpack/xlrd/xlsx.py
@@ -528,7 +528,10 @@ class X12Sheet(X12General):
             if self.verbosity >= 2:
                 self.dumpout('Id=%r Type=%r Target=%r', rid, reltype, target)
             self.relid2reltype[rid] = reltype
-            self.relid2path[rid] = normpath(join('xl/worksheets', target))
+            if target.startswith('/'):
+                self.relid2path[rid] = target[1:] # drop the /
+            else:
+                self.relid2path[rid] = normpath(join('xl/worksheets', target))
 
     def process_comments_stream(self, stream):
         root = ET.parse(stream).getroot()
-- 
2.43.0


From 713a1626671c45d3e2959773f950fe51e4a15a6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:19:15 +0000
Subject: [PATCH 28/42] fix: view options of a BIFF2 sheet are not all reported
 as set

Iterating over bytes yields integers, which never equal b'\0'.
---
 channelpack/xlrd/sheet.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/channelpack/xlrd/sheet.py b/channelpack/xlrd/sheet.py
index c3261f8..c3b600f 100644
--- a/channelpack/xlrd/sheet.py
+++ b/channelpack/xlrd/sheet.py
@@ -1488,7 +1488,7 @@ class Sheet(BaseObject):
                     attr_names = ("show_formulas", "show_grid_lines", "show_sheet_headers",
                         "panes_are_frozen", "show_zero_values")
                     for attr, char in zip(attr_names, data[0:5]):
-                        setattr(self, attr, int(char != b'\0'))
+                        setattr(self, attr, int(BYTES_ORD(char) != 0))
                     (
                         self.first_visible_rowx, self.first_visible_colx,
                         self.automatic_grid_line_colour,
-- 
2.43.0


From d2a3e96e0ecf8a7f0e2ab9ba23e07baaf4173088 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:39:15 +0000
Subject: [PATCH 29/42] fix: a name whose formula can't be evaluated has no
 result

Evaluation problems of a defined name (circular names, deep indirection,
unsupported tokens, references to several areas) made open_workbook fail.
The documentation says that the result is None in that case.
---
 channelpack/xlrd/book.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/channelpack/xlrd/book.py b/channelpack/xlrd/book.py
index db0a816..040b829 100644
--- a/channelpack/xlrd/book.py
+++ b/channelpack/xlrd/book.py
@@ -1067,7 +1067,17 @@ class Book(BaseObject):
             # Parse the formula ...
             if nobj.macro or nobj.binary: continue
             if nobj.evaluated: continue
-            evaluate_name_formula(self, nobj, namex, blah=blah)
+            try:
+                evaluate_name_formula(self, nobj, namex, blah=blah)
+            except Exception as exc:
+                # A name that can't be evaluated has no result; that is no
+                # reason for not reading the workbook.
+                if self.verbosity:
+                    fprintf(f, "*** Problem with NAME[%d] %r: %r\n", namex, nobj.name, exc)
+                nobj.stack = []
+                nobj.result = None
+                nobj.any_rel = nobj.any_external = 0
+                nobj.any_err = nobj.evaluated = 1
 
         if self.verbosity >= 2:
             print("---------- name object dump ----------", file=f)
-- 
2.43.0


From bc3009d94a2aeab71043a84e3f5690501099ff7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:39:15 +0000
Subject: [PATCH 30/42] fix: operators in names have no value where Excel has
 an error

1/0, "ab"+1, 1<"a" and -Name with Name a cell reference raised an
exception; (-8)^(1/3) and 1E308*10 had a complex or infinite value, and
+"a" was a number.
---
 channelpack/xlrd/formula.py | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/channelpack/xlrd/formula.py b/channelpack/xlrd/formula.py
index 93c094c..f675a77 100644
--- a/channelpack/xlrd/formula.py
+++ b/channelpack/xlrd/formula.py
@@ -796,11 +796,19 @@ def evaluate_name_formula(bk, nobj, namex, blah=0, level=0):
         if bop.value is None or aop.value is None:
             stk.append(resop)
             return
-        bval = bconv(bop.value)
-        aval = aconv(aop.value)
-        result = func(aval, bval)
+        try:
+            bval = bconv(bop.value)
+            aval = aconv(aop.value)
+            result = func(aval, bval)
+        except (ArithmeticError, TypeError, ValueError):
+            # e.g. division by zero, text that isn't a number
+            stk.append(resop)
+            return
         if result_kind == oBOOL:
             result = 1 if result else 0
+        elif result_kind == oNUM and (isinstance(result, complex) or result - result != 0):
+            # complex, infinite, NaN: an error in Excel
+            result = None
         resop.value = result
         stk.append(resop)
 
@@ -808,6 +816,9 @@ def evaluate_name_formula(bk, nobj, namex, blah=0, level=0):
         assert len(stk) >= 1
         aop = stk.pop()
         val = aop.value
+        if aop.kind not in (oNUM, oBOOL):
+            # text, or cells referred to by another name
+            val = None
         func, rank, sym1, sym2 = unop_rules[opcode]
         otext = ''.join([
             sym1,
-- 
2.43.0


From d1099f205c4ed2586b6ba1ee033664b86bf07bca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:39:38 +0000
Subject: [PATCH 31/42] fix: range with an erroneous operand and empty
 intersection in names

A range operator with an erroneous operand left an int on the stack; an
intersection without any cell gave a Ref3D with thingxlo >= thingxhi.
---
 channelpack/xlrd/formula.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/channelpack/xlrd/formula.py b/channelpack/xlrd/formula.py
index f675a77..f6c2ce8 100644
--- a/channelpack/xlrd/formula.py
+++ b/channelpack/xlrd/formula.py
@@ -899,7 +899,10 @@ def evaluate_name_formula(bk, nobj, namex, blah=0, level=0):
                         assert len(bop.value) == 1
                         coords = do_box_funcs(
                             tIsectFuncs, aop.value[0], bop.value[0])
-                        res.value = [Ref3D(coords)]
+                        if all(coords[i] < coords[i+1] for i in (0, 2, 4)):
+                            res.value = [Ref3D(coords)]
+                        else: # nothing in common: #NULL!
+                            res.kind = oERR
                 elif bop.kind == oREL == aop.kind:
                     res.kind = oREL
                     if aop.value is not None and bop.value is not None:
@@ -964,7 +967,7 @@ def evaluate_name_formula(bk, nobj, namex, blah=0, level=0):
                 ])
                 res = Operand(oREF, None, rank, otext)
                 if bop.kind == oERR or aop.kind == oERR:
-                    res = oERR
+                    res.kind = oERR
                 elif bop.kind == oREF == aop.kind:
                     if aop.value is not None and bop.value is not None:
                         assert len(aop.value) == 1
@@ -1548,7 +1551,7 @@ def decompile_formula(bk, fmla, fmlalen,
                 ])
                 res = Operand(oREF, None, rank, otext)
                 if bop.kind == oERR or aop.kind == oERR:
-                    res = oERR
+                    res.kind = oERR
                 elif bop.kind == oREF == aop.kind:
                     pass
                 else:
-- 
2.43.0


From 097f331191992a63e52d18e50f0c0551e136a1bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:39:38 +0000
Subject: [PATCH 32/42] fix: Name.cell and Name.area2d of a reference without
 value

The result can be of kind oREF with value None; raise XLRDError as
documented rather than TypeError.
---
 channelpack/xlrd/book.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/channelpack/xlrd/book.py b/channelpack/xlrd/book.py
index 040b829..4e00440 100644
--- a/channelpack/xlrd/book.py
+++ b/channelpack/xlrd/book.py
@@ -227,7 +227,7 @@ class Name(BaseObject):
             # result should be an instance of the Operand class
             kind = res.kind
             value = res.value
-            if kind == oREF and len(value) == 1:
+            if kind == oREF and value and len(value) == 1:
                 ref3d = value[0]
                 if (0 <= ref3d.shtxlo == ref3d.shtxhi - 1 and
                         ref3d.rowxlo == ref3d.rowxhi - 1 and
@@ -264,7 +264,7 @@ class Name(BaseObject):
             # result should be an instance of the Operand class
             kind = res.kind
             value = res.value
-            if kind == oREF and len(value) == 1: # only 1 reference
+            if kind == oREF and value and len(value) == 1: # only 1 reference
                 ref3d = value[0]
                 if 0 <= ref3d.shtxlo == ref3d.shtxhi - 1: # only 1 usable sheet
                     sh = self.book.sheet_by_index(ref3d.shtxlo)
-- 
2.43.0


From a057888344a7f719595b31f1b7559c944f8e4e78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:39:38 +0000
Subject: [PATCH 33/42] fix: SUPBOOK record ending just before the options of a
 sheet name

The rest is in a CONTINUE record; IndexError made open_workbook fail.
---
 channelpack/xlrd/book.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/channelpack/xlrd/book.py b/channelpack/xlrd/book.py
index 4e00440..1e95f7f 100644
--- a/channelpack/xlrd/book.py
+++ b/channelpack/xlrd/book.py
@@ -1152,7 +1152,7 @@ class Book(BaseObject):
         for x in range(num_sheets):
             try:
                 shname, pos = unpack_unicode_update_pos(data, pos, lenlen=2)
-            except struct.error:
+            except (struct.error, IndexError):
                 # #### FIX ME ####
                 # Should implement handling of CONTINUE record(s) ...
                 if self.verbosity:
-- 
2.43.0


From 1960c674b07fd9de108a3981c56d6c8c9035c8de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:39:38 +0000
Subject: [PATCH 34/42] fix: scope of defined names in xlsx with sheets that
 aren't worksheets

localSheetId counts all sheets, Name.scope only worksheets.
---
 channelpack/xlrd/xlsx.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/channelpack/xlrd/xlsx.py b/channelpack/xlrd/xlsx.py
index 101ffc9..12e8070 100644
--- a/channelpack/xlrd/xlsx.py
+++ b/channelpack/xlrd/xlsx.py
@@ -324,6 +324,11 @@ class X12Book(X12General):
         map_attributes(_defined_name_attribute_map, elem, nobj)
         if nobj.scope is None:
             nobj.scope = -1 # global
+        elif nobj.scope < len(bk._all_sheets_map):
+            # localSheetId counts chart sheets etc
+            nobj.scope = bk._all_sheets_map[nobj.scope]
+            if nobj.scope == -1:
+                nobj.scope = -2 # valid sheet reference but not useful
         if nobj.name.startswith("_xlnm."):
             nobj.builtin = 1
         if self.verbosity >= 2:
@@ -350,6 +355,7 @@ class X12Book(X12General):
         if reltype != 'worksheet':
             if self.verbosity >= 2:
                 self.dumpout('Ignoring sheet of type %r (name=%r)', reltype, name)
+            bk._all_sheets_map.append(-1)
             return
         state = elem.get('state')
         visibility_map = {
@@ -365,6 +371,7 @@ class X12Book(X12General):
         sheet.utter_max_cols = X12_MAX_COLS
         bk._sheet_list.append(sheet)
         bk._sheet_names.append(name)
+        bk._all_sheets_map.append(sheetx)
         bk.nsheets += 1
         self.sheet_targets.append(target)
         self.sheetIds.append(sheetId)
-- 
2.43.0


From 60d76fa33a09dfbfc8ab2bf288941a1c98e2c180 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:41:50 +0000
Subject: [PATCH 35/42] fix: a mask that is not flat is refused without
 changing the pack

---
 channelpack/pack.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/channelpack/pack.py b/channelpack/pack.py
index 5ab59f2..23d3fd0 100644
--- a/channelpack/pack.py
+++ b/channelpack/pack.py
@@ -250,8 +250,9 @@ class ChannelPack(object):
         elif name == 'mask' and not isinstance(value, np.ndarray):
             raise TypeError('Expected a numpy array')
         elif name == 'mask':
+            slicelist = datautils.slicelist(value)  # fail before any change
             object.__setattr__(self, name, value.copy())
-            self._cached_slicelist = self._slicelist()
+            self._cached_slicelist = slicelist
             if self.mindur is not None:
                 self.duration(self.mindur, samplerate=1, mindur=True)
         elif name == 'mindur' and not ((value is None)
-- 
2.43.0


From 089bfedd4ad7715da926ae2c1830d4638ba222d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:25:18 +0000
Subject: [PATCH 36/42] fix: read BIFF4 workbooks with a PALETTE record in
 several sheets

---
 channelpack/xlrd/book.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/channelpack/xlrd/book.py b/channelpack/xlrd/book.py
index 1e95f7f..bab7f8d 100644
--- a/channelpack/xlrd/book.py
+++ b/channelpack/xlrd/book.py
@@ -1180,6 +1180,9 @@ class Book(BaseObject):
         posn = BOF_posn - 4 - len(data)
         if DEBUG: fprintf(self.logfile, 'SHEETHDR %d at posn %d: len=%d name=%r\n', sheetno, posn, sheet_len, sheet_name)
         self.initialise_format_info()
+        # each sheet can have its own PALETTE record, too
+        self.palette_record = []
+        formatting.initialise_colour_map(self)
         if DEBUG: print('SHEETHDR: xf epilogue flag is %d' % self._xf_epilogue_done, file=self.logfile)
         self._sheet_list.append(None) # get_sheet updates _sheet_list but needs a None beforehand
         self.get_sheet(sheetno, update_pos=False)
-- 
2.43.0


From 49c3d316374ecafabf61234e843c612f7bfa16fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:38:38 +0000
Subject: [PATCH 37/42] fix: a compound document with more than 249 directory
 entries

---
 channelpack/xlrd/compdoc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/channelpack/xlrd/compdoc.py b/channelpack/xlrd/compdoc.py
index 096abce..8e58e34 100644
--- a/channelpack/xlrd/compdoc.py
+++ b/channelpack/xlrd/compdoc.py
@@ -120,7 +120,7 @@ class CompDoc(object):
                 % (len(mem), sec_size), file=logfile)
         self.mem_data_secs = mem_data_secs # use for checking later
         self.mem_data_len = mem_data_len
-        seen = self.seen = array.array('B', [0]) * mem_data_secs
+        seen = self.seen = array.array('i', [0]) * mem_data_secs
 
         if DEBUG:
             print('sec sizes', ssz, sssz, sec_size, self.short_sec_size, file=logfile)
-- 
2.43.0


From 1fb6f5e1edd33ee97c7b951b4e3e5274396d9907 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:20:07 +0000
Subject: [PATCH 38/42] fix: duration requires the exact number of elements for
 float products

duration(0.29, samplerate=100) accepted parts of 28 elements because of
the float product 28.999999999999996, and duration(2.5) parts of 2.
---
 channelpack/pack.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/channelpack/pack.py b/channelpack/pack.py
index 23d3fd0..a90a2fa 100644
--- a/channelpack/pack.py
+++ b/channelpack/pack.py
@@ -4,6 +4,7 @@
 See docs at https://channelpack.readthedocs.org/en/latest/
 
 """
+import math
 import re
 from collections import namedtuple
 
@@ -367,7 +368,10 @@ class ChannelPack(object):
             The possibly altered mask.
         """
 
-        req_duration = int(duration * samplerate)
+        # a float product is off by some noise, 0.29 * 100 < 29
+        elements = round(duration * samplerate, 9)
+        req_duration = int(math.ceil(elements) if mindur else
+                           math.floor(elements))
 
         for sc in self._cached_slicelist:
             part_duration = sc.stop - sc.start
-- 
2.43.0


From 49605079b2948ace51b22bd4d67939180c3f662d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:07:43 +0000
Subject: [PATCH 39/42] fix: lazy reading of bytes with encoding None uses the
 default encoding

---
 channelpack/readtext.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/channelpack/readtext.py b/channelpack/readtext.py
index 00ffa2b..dd9b34c 100644
--- a/channelpack/readtext.py
+++ b/channelpack/readtext.py
@@ -263,7 +263,7 @@ def lazy_textpack(fname, parselines=25, **textkwargs):
         keyword arguments if duplicated.
 
     """
-    encoding = textkwargs.get('encoding', locale.getpreferredencoding())
+    encoding = textkwargs.get('encoding') or locale.getpreferredencoding()
     with contextopen(fname, encoding=encoding) as context:
         fo = context.fo
         start = fo.tell()
-- 
2.43.0


From d6f5335d8409e87dd06a21b5774bbc6e46cc0237 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:14:33 +0000
Subject: [PATCH 40/42] fix: read from streams whose name is not a string

---
 channelpack/readtext.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/channelpack/readtext.py b/channelpack/readtext.py
index dd9b34c..9480030 100644
--- a/channelpack/readtext.py
+++ b/channelpack/readtext.py
@@ -214,10 +214,9 @@ class contextopen(object):
             self.name = fname
         else:
             self.fo = fname
-            try:
-                self.name = fname.name
-            except AttributeError:
-                pass
+            name = getattr(fname, 'name', '')
+            if isinstance(name, str):  # else a file descriptor or None
+                self.name = name
 
         try:
             tell = self.fo.tell()
-- 
2.43.0


From 6eea82dd98ab192d5073d810050236feadc0031f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:22:11 +0000
Subject: [PATCH 41/42] fix: lazy reading with usecols None reads all columns

---
 channelpack/readtext.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/channelpack/readtext.py b/channelpack/readtext.py
index 9480030..287323d 100644
--- a/channelpack/readtext.py
+++ b/channelpack/readtext.py
@@ -280,7 +280,8 @@ def lazy_textpack(fname, parselines=25, **textkwargs):
         fo.seek(start)
         derived.update(textkwargs)
 
-        if 'usecols' in textkwargs and 'names' not in textkwargs:
+        if (textkwargs.get('usecols') is not None
+                and 'names' not in textkwargs):
             usecols = textkwargs['usecols']
             usecols = (usecols,) if type(usecols) is int else usecols
             for key in list(derived.get('names', {})):  # no names no loop
-- 
2.43.0


From 6ceed4450dd6b54e96047c3b069cb8f8ee4e0304 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:03:12 +0000
Subject: [PATCH 42/42] fix: decode user name of old files without code page

Files of Excel 2 to 4 have no globals part at whose end the encoding is
derived. Without a CODEPAGE record and any text record the encoding was
left None and user_name the raw bytes of the record.
---
 channelpack/xlrd/book.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/channelpack/xlrd/book.py b/channelpack/xlrd/book.py
index bab7f8d..d9e5857 100644
--- a/channelpack/xlrd/book.py
+++ b/channelpack/xlrd/book.py
@@ -754,6 +754,8 @@ class Book(BaseObject):
         self._sheet_visibility = [0] # one sheet, visible
         self._sheet_list.append(None) # get_sheet updates _sheet_list but needs a None beforehand
         self.get_sheets()
+        if not self.encoding:
+            self.derive_encoding()
 
     def handle_boundsheet(self, data):
         # DEBUG = 1
-- 
2.43.0

