From 07bf68e4e6b92f46a88dcb00c529fdc40c9669b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:02 +0000
Subject: [PATCH 01/17] fix: store a header before counting it in the headers
 file

---
 bitcoinx/chain.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/bitcoinx/chain.py b/bitcoinx/chain.py
index 2ce8768..e897432 100644
--- a/bitcoinx/chain.py
+++ b/bitcoinx/chain.py
@@ -238,9 +238,10 @@ class _HeaderStorage(object):
         if start >= len(mmap):
             mmap.close()
             mmap = self.mmap = map_file(self.filename, self._offset(index + 5_000))
+        self.mmap[start: start + 80] = raw_header
+        # Only count the header once it is stored, in case the process dies in between
         if index >= len(self):
             self._set_count(index + 1)
-        self.mmap[start: start + 80] = raw_header
 
     def __getitem__(self, key):
         def header(index):
-- 
2.43.0


From 8147769c77bb0cab5ea5d4f05f59c9bf42d5d614 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:14 +0000
Subject: [PATCH 02/17] fix: keep the headers file mapped if growing it fails

---
 bitcoinx/chain.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/bitcoinx/chain.py b/bitcoinx/chain.py
index e897432..bf08fac 100644
--- a/bitcoinx/chain.py
+++ b/bitcoinx/chain.py
@@ -233,11 +233,12 @@ class _HeaderStorage(object):
         if not isinstance(raw_header, (bytes, bytearray)) or len(raw_header) != 80:
             raise TypeError('raw header must be binary of length 80')
         # Grow if needed
-        mmap = self.mmap
         start = self._offset(index)
-        if start >= len(mmap):
-            mmap.close()
-            mmap = self.mmap = map_file(self.filename, self._offset(index + 5_000))
+        if start >= len(self.mmap):
+            # Keep the existing map in case growing the file fails
+            old_mmap = self.mmap
+            self.mmap = map_file(self.filename, self._offset(index + 5_000))
+            old_mmap.close()
         self.mmap[start: start + 80] = raw_header
         # Only count the header once it is stored, in case the process dies in between
         if index >= len(self):
-- 
2.43.0


From 7f2db82d8d2dd3aa0ffde52b36e45af7f1e6a4db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:24 +0000
Subject: [PATCH 03/17] fix: re-create a headers file left empty by an
 interrupted creation

---
 bitcoinx/chain.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/bitcoinx/chain.py b/bitcoinx/chain.py
index bf08fac..b524708 100644
--- a/bitcoinx/chain.py
+++ b/bitcoinx/chain.py
@@ -202,7 +202,11 @@ class _HeaderStorage(object):
     def _open_file(self, checkpoint):
         logger.debug(f'opening headers file {self.filename}')
         s = self.struct_reserved
-        self.mmap = map_file(self.filename)
+        try:
+            self.mmap = map_file(self.filename)
+        except ValueError as e:
+            # An empty file cannot be mapped
+            raise _BadHeadersFile(f'empty headers file {self.filename}') from e
         try:
             if len(self.mmap) >= s.size:
                 self.reserved_size, version, self.header_count = s.unpack(self.mmap[:s.size])
-- 
2.43.0


From 36c338ce452b4d9a884b214ff650f1e0f6f3b7c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:36 +0000
Subject: [PATCH 04/17] fix: reject a headers file whose header count excludes
 the checkpoint

---
 bitcoinx/chain.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/bitcoinx/chain.py b/bitcoinx/chain.py
index b524708..0a7a872 100644
--- a/bitcoinx/chain.py
+++ b/bitcoinx/chain.py
@@ -211,7 +211,8 @@ class _HeaderStorage(object):
             if len(self.mmap) >= s.size:
                 self.reserved_size, version, self.header_count = s.unpack(self.mmap[:s.size])
                 # Note self[checkpoint.height] might raise MissingHeader
-                if version == 0 and self[checkpoint.height] == checkpoint.raw_header:
+                if (version == 0 and self.header_count > checkpoint.height
+                        and self[checkpoint.height] == checkpoint.raw_header):
                     return
             raise _BadHeadersFile(f'invalid headers file {self.filename}')
         except Exception:
-- 
2.43.0


From 2d16319497a6c2e75217442690a4b5791d51e83e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:47 +0000
Subject: [PATCH 05/17] fix: open a headers file whose unflushed headers were
 lost or torn

---
 bitcoinx/chain.py | 33 ++++++++++++++++++++++++++++-----
 1 file changed, 28 insertions(+), 5 deletions(-)

diff --git a/bitcoinx/chain.py b/bitcoinx/chain.py
index 0a7a872..6d8b09a 100644
--- a/bitcoinx/chain.py
+++ b/bitcoinx/chain.py
@@ -239,7 +239,7 @@ class _HeaderStorage(object):
             raise TypeError('raw header must be binary of length 80')
         # Grow if needed
         start = self._offset(index)
-        if start >= len(self.mmap):
+        if start + 80 > len(self.mmap):
             # Keep the existing map in case growing the file fails
             old_mmap = self.mmap
             self.mmap = map_file(self.filename, self._offset(index + 5_000))
@@ -253,7 +253,7 @@ class _HeaderStorage(object):
         def header(index):
             start = self._offset(index)
             result = self.mmap[start: start + 80]
-            if not result or result == empty_header:
+            if len(result) < 80 or result == empty_header:
                 raise MissingHeader(f'no header at index {index}')
             return result
 
@@ -280,6 +280,17 @@ class _HeaderStorage(object):
         self._set_raw_header(header_index, raw_header)
         return header_index
 
+    def discard_from(self, index):
+        '''Discard headers from index onwards, and any remains of them after the last header.'''
+        if index < len(self):
+            self._set_count(index)
+        start = self._offset(index)
+        remains = self.mmap[start:]
+        if remains.count(0) != len(remains):
+            self.mmap[start:] = bytes(len(remains))
+            # So parts of them cannot reappear amongst headers stored later
+            self.flush()
+
     def close(self):
         self.mmap.close()
 
@@ -361,16 +372,28 @@ class Headers(object):
             start += 1
 
     def _read_headers(self):
-        '''Read in all the headers from storage.'''
+        '''Read in all the headers from storage.
+
+        If the system crashed then headers that were not flushed might be missing or only
+        partially written.  Keep those before the first such header.'''
         read_header = self._read_header
-        for header_index in range(self.checkpoint.height + 1, len(self)):
-            read_header(header_index)
+        count = len(self)
+        for header_index in range(self.checkpoint.height + 1, count):
+            try:
+                read_header(header_index)
+            except MissingHeader as e:
+                logger.warning(f'discarding {count - header_index:,d} stored headers: {e}')
+                count = header_index
+                break
+        self._storage.discard_from(count)
 
     def _read_header(self, header_index):
         '''Read a single header from storage.  The header must connect, either to extend an
         existing chain or create a new one.  Return the chain the header lies on.
         '''
         new_tip = self.coin.deserialized_header(self._storage[header_index], -1)
+        if not new_tip.bits:
+            raise MissingHeader(f'incomplete header at index {header_index}')
         prev_header, chain = self.lookup(new_tip.prev_hash)
         new_tip.height = prev_header.height + 1
         if chain.tip.hash == prev_header.hash:
-- 
2.43.0


From d147e444af79ddce2524dbb8ab7c5ed66e2741cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:32 +0000
Subject: [PATCH 06/17] fix: make a created headers file durable before storing
 headers in it

---
 bitcoinx/chain.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/bitcoinx/chain.py b/bitcoinx/chain.py
index 6d8b09a..69f5488 100644
--- a/bitcoinx/chain.py
+++ b/bitcoinx/chain.py
@@ -32,6 +32,7 @@ import array
 from collections import namedtuple
 import logging
 import math
+import os
 from struct import Struct
 
 from bitcoinx.hashes import hash_to_hex_str
@@ -198,6 +199,9 @@ class _HeaderStorage(object):
             f.write(s.pack(s.size, 0, checkpoint.height + 1))
             f.seek(self._offset(checkpoint.height))
             f.write(checkpoint.raw_header)
+            # So parts of an earlier file cannot reappear amongst headers stored later
+            f.flush()
+            os.fsync(f.fileno())
 
     def _open_file(self, checkpoint):
         logger.debug(f'opening headers file {self.filename}')
-- 
2.43.0


From 46f0b81bc60af8f5d9562d7f263286b3683cebd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:52 +0000
Subject: [PATCH 07/17] fix: reject a truncated previous hash when reading a
 transaction input

---
 bitcoinx/tx.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/bitcoinx/tx.py b/bitcoinx/tx.py
index 98cccc7..22bf2ce 100644
--- a/bitcoinx/tx.py
+++ b/bitcoinx/tx.py
@@ -31,6 +31,7 @@ __all__ = (
 import attr
 import datetime
 from io import BytesIO
+from struct import error as struct_error
 
 from .consts import JSONFlags
 from .hashes import hash_to_hex_str, double_sha256
@@ -211,8 +212,11 @@ class TxInput:
 
     @classmethod
     def read(cls, read):
+        prev_hash = read(32)
+        if len(prev_hash) != 32:
+            raise struct_error('a previous hash requires a buffer of 32 bytes')
         return cls(
-            read(32),                       # prev_hash
+            prev_hash,
             read_le_uint32(read),           # prev_idx
             Script(read_varbytes(read)),    # script_sig
             read_le_uint32(read),           # sequence
-- 
2.43.0


From 7b4625f21da9d6bd532e403d1c96e0fb28ed90d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:23 +0000
Subject: [PATCH 08/17] fix: do not make an extended private key from a short
 read of its source

---
 bitcoinx/bip32.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/bitcoinx/bip32.py b/bitcoinx/bip32.py
index fbfbe58..0ffd57b 100644
--- a/bitcoinx/bip32.py
+++ b/bitcoinx/bip32.py
@@ -116,6 +116,8 @@ class BIP32PrivateKey(PrivateKey):
         while True:
             try:
                 data = source(64)
+                if len(data) != 64:
+                    raise ValueError('source must return 64 bytes')
                 return cls._from_parts(data[:32], data[32:], Bitcoin)
             except ValueError:
                 pass
-- 
2.43.0


From 1086a711de1be73affa849b707eb50eec208ba6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:42 +0000
Subject: [PATCH 09/17] fix: do not swallow a ValueError raised by a random
 key's source

---
 bitcoinx/bip32.py | 2 +-
 bitcoinx/keys.py  | 3 ++-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/bitcoinx/bip32.py b/bitcoinx/bip32.py
index 0ffd57b..97a271f 100644
--- a/bitcoinx/bip32.py
+++ b/bitcoinx/bip32.py
@@ -114,8 +114,8 @@ class BIP32PrivateKey(PrivateKey):
     def from_random(cls, *, source=urandom):
         '''Return a random, valid PrivateKey.'''
         while True:
+            data = source(64)
             try:
-                data = source(64)
                 if len(data) != 64:
                     raise ValueError('source must return 64 bytes')
                 return cls._from_parts(data[:32], data[32:], Bitcoin)
diff --git a/bitcoinx/keys.py b/bitcoinx/keys.py
index 72e3025..38c8482 100644
--- a/bitcoinx/keys.py
+++ b/bitcoinx/keys.py
@@ -185,8 +185,9 @@ class PrivateKey:
     def from_random(cls, *, source=urandom):
         '''Return a random, valid PrivateKey.'''
         while True:
+            secret = source(32)
             try:
-                return cls(source(32), True)
+                return cls(secret, True)
             except ValueError:
                 pass
 
-- 
2.43.0


From 51bbfb941e359866eb1905415f8a20ad59ed8c16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:21 +0000
Subject: [PATCH 10/17] fix: report non-ASCII text of an encrypted message as a
 decryption error

---
 bitcoinx/keys.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/bitcoinx/keys.py b/bitcoinx/keys.py
index 38c8482..a7a113d 100644
--- a/bitcoinx/keys.py
+++ b/bitcoinx/keys.py
@@ -29,7 +29,6 @@ __all__ = ('PrivateKey', 'PublicKey', 'CURVE_ORDER', 'DecryptionError', )
 
 
 from base64 import b64decode, b64encode
-from binascii import Error as binascii_Error
 from os import urandom
 
 from electrumsv_secp256k1 import ffi, lib
@@ -298,7 +297,7 @@ class PrivateKey:
         if isinstance(message, str):
             try:
                 message = b64decode(message, validate=True)
-            except binascii_Error:
+            except ValueError:  # includes binascii.Error
                 raise DecryptionError('invalid base64 encoding of encrypted message') from None
         mlen = len(magic)
         if len(message) < 81 + mlen:
-- 
2.43.0


From c009068592e7665f218b4aa574ad5307ef48c620 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:13 +0000
Subject: [PATCH 11/17] fix: report non-ASCII text of a message signature as an
 invalid signature

---
 bitcoinx/signature.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/bitcoinx/signature.py b/bitcoinx/signature.py
index c1ee55b..e27bab1 100644
--- a/bitcoinx/signature.py
+++ b/bitcoinx/signature.py
@@ -31,7 +31,6 @@ __all__ = (
 )
 
 from base64 import b64decode
-from binascii import Error as binascii_Error
 
 from electrumsv_secp256k1 import ffi, lib
 
@@ -151,7 +150,7 @@ def to_recoverable_signature(message_sig):
     if isinstance(message_sig, str):
         try:
             message_sig = b64decode(message_sig, validate=True)
-        except binascii_Error:
+        except ValueError:  # includes binascii.Error
             raise InvalidSignatureError('invalid base64 encoding of message signature') from None
     if not isinstance(message_sig, bytes) or len(message_sig) != 65:
         raise InvalidSignatureError('message signature must be 65 bytes')
-- 
2.43.0


From e7dc3afc907a0832b845bb7a8cd9d9a60592ef78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:31 +0000
Subject: [PATCH 12/17] fix: reject a cash address that consists of a checksum
 only

---
 bitcoinx/cashaddr.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/bitcoinx/cashaddr.py b/bitcoinx/cashaddr.py
index 0578353..dacc483 100644
--- a/bitcoinx/cashaddr.py
+++ b/bitcoinx/cashaddr.py
@@ -123,7 +123,8 @@ def _decode_payload(addr):
         raise ValueError('address prefix is missing: {}'.format(addr))
     if not all(33 <= ord(x) <= 126 for x in prefix):
         raise ValueError('invalid address prefix: {}'.format(prefix))
-    if not 8 <= len(payload) <= 124:
+    # The last 8 characters are the checksum
+    if not 8 < len(payload) <= 124:
         raise ValueError('address payload has invalid length: {}'
                          .format(len(addr)))
     try:
-- 
2.43.0


From a55abf6e9894fb76414a9c30ebfbaa4fc4ccea3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:39 +0000
Subject: [PATCH 13/17] fix: refuse a BIP32 chain string followed by a newline

---
 bitcoinx/bip32.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bitcoinx/bip32.py b/bitcoinx/bip32.py
index 97a271f..d5b750f 100644
--- a/bitcoinx/bip32.py
+++ b/bitcoinx/bip32.py
@@ -44,7 +44,7 @@ from .packing import pack_be_uint32, unpack_be_uint32, pack_byte
 from .util import cachedproperty
 
 HARDENED = 1 << 31
-PART_REGEX = re.compile("([0-9]+)'?$")
+PART_REGEX = re.compile(r"([0-9]+)'?\Z")
 
 
 @attr.s(slots=True, frozen=True, repr=False)
-- 
2.43.0


From 3d1c3cf333b97a0f679691343f956c9c899f60d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:38 +0000
Subject: [PATCH 14/17] fix: read word lists as UTF-8 whatever the locale

---
 bitcoinx/mnemonic.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bitcoinx/mnemonic.py b/bitcoinx/mnemonic.py
index 8abdf9d..f4d2836 100644
--- a/bitcoinx/mnemonic.py
+++ b/bitcoinx/mnemonic.py
@@ -74,7 +74,7 @@ class Wordlists:
 
     @classmethod
     def _read_wordlist(cls, filename, expected_count):
-        with open(data_file_path(filename)) as f:
+        with open(data_file_path(filename), encoding='utf-8') as f:
             text = f.read()
         return cls._text_to_wordlist(text, expected_count)
 
-- 
2.43.0


From 39cb5e0d2d62cd6816ed8096974931783a1c9a70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:49 +0000
Subject: [PATCH 15/17] fix: do not give out the cached old word list as a
 BIP39 one

---
 bitcoinx/mnemonic.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/bitcoinx/mnemonic.py b/bitcoinx/mnemonic.py
index f4d2836..7b4df7a 100644
--- a/bitcoinx/mnemonic.py
+++ b/bitcoinx/mnemonic.py
@@ -80,9 +80,10 @@ class Wordlists:
 
     @classmethod
     def _cached_wordlist(cls, filename, expected_count):
-        result = cls.cache.get(filename)
+        key = (filename, expected_count)
+        result = cls.cache.get(key)
         if not result:
-            result = cls.cache[filename] = cls._read_wordlist(filename, expected_count)
+            result = cls.cache[key] = cls._read_wordlist(filename, expected_count)
         return result
 
     @classmethod
-- 
2.43.0


From bdfeb1dd771deabea8f313cf6daeb7bfbcbb2379 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:17 +0000
Subject: [PATCH 16/17] fix: allow more than 65536 chains in a headers store

The array of the chain each header lies on held 16-bit values, so once a header
created chain 65536 it had been stored but connect() raised OverflowError, and
so did every later attempt to open the file.
---
 bitcoinx/chain.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bitcoinx/chain.py b/bitcoinx/chain.py
index 69f5488..2ee83fb 100644
--- a/bitcoinx/chain.py
+++ b/bitcoinx/chain.py
@@ -334,7 +334,7 @@ class Headers(object):
         self._chains = []
         self._short_hashes = bytearray()
         self._heights = array.array('I')
-        self._chain_indices = array.array('H')
+        self._chain_indices = array.array('I')
         self._cache = {}
 
         # Create the base chain out to the checkpoint
-- 
2.43.0


From bf607f64658daed698facb6c957f3f1b405f228f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:49 +0000
Subject: [PATCH 17/17] fix: look up headers on a chain nested in any number of
 forks

Chain.header_index() recursed to the parent chain, so on a chain that forks from
a fork, and so on a thousand times over, reading an early header raised
RecursionError.
---
 bitcoinx/chain.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/bitcoinx/chain.py b/bitcoinx/chain.py
index 2ee83fb..98d4de0 100644
--- a/bitcoinx/chain.py
+++ b/bitcoinx/chain.py
@@ -143,13 +143,14 @@ class Chain(object):
 
     def header_index(self, height):
         '''Return the index of the header in storage.'''
-        if height >= self.first_height:
+        chain = self
+        while height < chain.first_height and chain.parent:
+            chain = chain.parent
+        if height >= chain.first_height:
             try:
-                return self._header_indices[height - self.first_height]
+                return chain._header_indices[height - chain.first_height]
             except IndexError:
                 pass
-        elif self.parent:
-            return self.parent.header_index(height)
         elif height >= 0:
             return height
         raise MissingHeader(f'no header at height {height}')
-- 
2.43.0

