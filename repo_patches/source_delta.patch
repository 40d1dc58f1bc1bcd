From ab21105a41cea8cbbd63dffc0fb13b57aea98ca9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:52:39 +0000
Subject: [PATCH 01/24] fix: keep trying other recipients and keys after an SSH
 key mismatch

---
 src/age/recipients/helpers.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/age/recipients/helpers.py b/src/age/recipients/helpers.py
index 4814876..933fabb 100644
--- a/src/age/recipients/helpers.py
+++ b/src/age/recipients/helpers.py
@@ -31,7 +31,8 @@ def decrypt_file_key(
         for key in _filter_keys_for_recipient(recipient, keys):
             try:
                 return recipient.decrypt(key)
-            except InvalidTag:
+            except (InvalidTag, ValueError):
+                # ValueError: this is not the (SSH) key the recipient line was made for
                 continue
 
     raise NoIdentity("No matching key")
-- 
2.43.0


From 26a824892daaa4bed809ae535677ca7920f2f35b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:52:39 +0000
Subject: [PATCH 02/24] fix: seal empty payloads with a final chunk, reject
 payloads without one

---
 src/age/stream.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/age/stream.py b/src/age/stream.py
index 9a34a08..1865adb 100644
--- a/src/age/stream.py
+++ b/src/age/stream.py
@@ -14,7 +14,8 @@ def _pack_nonce(nonce: int, last_block: bool = False) -> bytes:
 
 
 def _chunk(data, size):
-    for i in range(0, len(data), size):
+    # an empty stream still consists of one (empty) chunk
+    for i in range(0, max(len(data), 1), size):
         yield data[i : i + size]
 
 
@@ -22,7 +23,7 @@ def stream_encrypt(key: bytes, data: bytes) -> bytes:
     assert len(key) == 32
 
     aead = ChaCha20Poly1305(key)
-    blocks = math.ceil(len(data) / PLAINTEXT_BLOCK_SIZE)
+    blocks = max(1, math.ceil(len(data) / PLAINTEXT_BLOCK_SIZE))
 
     encrypted = b""
     for nonce, block in enumerate(_chunk(data, PLAINTEXT_BLOCK_SIZE)):
@@ -38,7 +39,7 @@ def stream_decrypt(key: bytes, data: bytes) -> bytes:
     assert len(key) == 32
 
     aead = ChaCha20Poly1305(key)
-    blocks = math.ceil(len(data) / CIPHERTEXT_BLOCK_SIZE)
+    blocks = max(1, math.ceil(len(data) / CIPHERTEXT_BLOCK_SIZE))
 
     decrypted = b""
     for nonce, block in enumerate(_chunk(data, CIPHERTEXT_BLOCK_SIZE)):
-- 
2.43.0


From 1007786d9af566f2e6c5faab365f25a1f6bccf18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:52:39 +0000
Subject: [PATCH 03/24] fix: verify the header MAC over the header as received

---
 src/age/file.py   |  4 +---
 src/age/format.py | 11 +++++++++--
 2 files changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/age/file.py b/src/age/file.py
index 1740986..269c0e1 100644
--- a/src/age/file.py
+++ b/src/age/file.py
@@ -103,9 +103,7 @@ class Decryptor(io.RawIOBase):
                 recipients.append(recipient)
 
         self._file_key = decrypt_file_key(recipients, identities)
-        header_stream = io.BytesIO()
-        dump_header(header, header_stream, mac=None)
-        HMAC(self._hkdf(HEADER_HKDF_LABEL)).verify(header_stream.getvalue(), mac)
+        HMAC(self._hkdf(HEADER_HKDF_LABEL)).verify(header.raw, mac)
         # TODO: Should we try another identity if HMAC validation fails?
 
     def _decrypt_body(self):
diff --git a/src/age/format.py b/src/age/format.py
index de9e866..d93f577 100644
--- a/src/age/format.py
+++ b/src/age/format.py
@@ -26,6 +26,9 @@ class Header:
 
         self.recipients: typing.List[Recipient] = recipients
 
+        # the bytes covered by the MAC, exactly as read by load_header()
+        self.raw: bytes = b""
+
 
 AGE_INTRO = "age-encryption.org/v1"
 RECIPIENT_PREFIX = "->"
@@ -34,12 +37,13 @@ AEAD = "ChaChaPoly"
 
 
 def load_header(stream: typing.BinaryIO) -> typing.Tuple[Header, bytes]:
-    first_line = stream.readline().strip()
+    first_line = stream.readline()
 
-    if first_line.decode("utf-8", "replace") != AGE_INTRO:
+    if first_line.strip().decode("utf-8", "replace") != AGE_INTRO:
         raise ParserError("File signature not found.")
 
     header = Header()
+    header.raw = first_line
 
     line = ""
     for raw_line in stream:
@@ -49,10 +53,13 @@ def load_header(stream: typing.BinaryIO) -> typing.Tuple[Header, bytes]:
             type, *args = line[len(RECIPIENT_PREFIX) :].split()
             header.recipients.append(Recipient(type, args))
         elif line.startswith(FOOTER_PREFIX):
+            header.raw += FOOTER_PREFIX.encode("utf-8")
             break
         elif len(header.recipients) > 0:
             header.recipients[-1].body += line.strip()
 
+        header.raw += raw_line
+
     assert line.startswith(FOOTER_PREFIX)
     prefix, encoded_mac = line.split()
     assert prefix == FOOTER_PREFIX
-- 
2.43.0


From 50951a08666af7c1a1920f35835782446c56b3c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:52:39 +0000
Subject: [PATCH 04/24] fix: end recipient bodies with a short line, as the age
 format requires

---
 src/age/format.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/age/format.py b/src/age/format.py
index d93f577..a3361a8 100644
--- a/src/age/format.py
+++ b/src/age/format.py
@@ -77,6 +77,9 @@ def dump_header(header: Header, stream: typing.BinaryIO, mac: typing.Optional[by
         if recipient.body:
             wrapped = textwrap.fill(recipient.body, break_on_hyphens=False, width=64)
             stream.write(wrapped.encode("utf-8") + b"\n")
+            if len(recipient.body) % 64 == 0:
+                # the last line of a body must be shorter than 64 characters
+                stream.write(b"\n")
 
     footer = FOOTER_PREFIX
     if mac:
-- 
2.43.0


From b7c771ceb293679bbbc67a73a82273cb5732cda0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:52:39 +0000
Subject: [PATCH 05/24] fix: refuse to encrypt when a recipient cannot be
 resolved

---
 src/age/cli.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/age/cli.py b/src/age/cli.py
index 9337a64..48d3709 100644
--- a/src/age/cli.py
+++ b/src/age/cli.py
@@ -65,7 +65,11 @@ def encrypt(
 
     keys = []
     for recipient in recipients:
-        keys.extend(resolve_public_key(recipient, aliases=aliases))
+        resolved = resolve_public_key(recipient, aliases=aliases)
+        if not resolved:
+            print(f"Could not resolve recipient '{recipient}'.", file=sys.stderr)
+            sys.exit(1)
+        keys.extend(resolved)
 
     if ask_password:
         if recipients:
-- 
2.43.0


From 1614e6a0468b06ec2b26c689a48bcdb5edbd5d3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:52:39 +0000
Subject: [PATCH 06/24] fix: do not fetch github: entries of recipient lists

---
 src/age/keyloader.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/age/keyloader.py b/src/age/keyloader.py
index 64ce240..8e0cfe3 100644
--- a/src/age/keyloader.py
+++ b/src/age/keyloader.py
@@ -120,7 +120,7 @@ def resolve_public_key(
         return resolved_from_alias
 
     # resolve "github:" links
-    if keystr.startswith("github:"):
+    if read_urls and keystr.startswith("github:"):
         _, _, username = keystr.partition(":")
         github_url = f"https://github.com/{username}.keys"
         return resolve_public_key(github_url)
-- 
2.43.0


From e232e872b1b25603af61805e4febd865fb85a6bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:52:39 +0000
Subject: [PATCH 07/24] fix: skip unusable files when looking for SSH keys

---
 src/age/keyloader.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/age/keyloader.py b/src/age/keyloader.py
index 8e0cfe3..6cf154b 100644
--- a/src/age/keyloader.py
+++ b/src/age/keyloader.py
@@ -2,6 +2,7 @@ import collections
 import glob
 import os.path
 import re
+import sys
 import typing
 
 import requests
@@ -70,7 +71,12 @@ def load_ssh_keys(root="~/.ssh") -> typing.Collection[DecryptionKey]:
     keys = []
 
     for filename in glob.glob(os.path.join(root, "id_*")):
-        key = load_ssh_private_key(filename)
+        try:
+            key = load_ssh_private_key(filename)
+        except Exception as e:
+            # e.g. keys with a passphrase, unsupported key types or damaged files
+            print(f"Ignoring SSH key {filename}: {e}", file=sys.stderr)
+            continue
         if key:
             keys.append(key)
 
-- 
2.43.0


From a2739042f71ad22410fa51d2fb577edde0340191 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:52:39 +0000
Subject: [PATCH 08/24] fix: do not complete the output of a failed encryption

---
 src/age/file.py | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/age/file.py b/src/age/file.py
index 269c0e1..d4f8447 100644
--- a/src/age/file.py
+++ b/src/age/file.py
@@ -24,7 +24,12 @@ class Encryptor(io.RawIOBase):
 
         self._plaintext_buffer: bytes = b""
 
-        self._write_header(keys)
+        try:
+            self._write_header(keys)
+        except BaseException:
+            # without a header there is nothing to complete later
+            super().close()
+            raise
 
     def writable(self):
         return True
@@ -38,6 +43,12 @@ class Encryptor(io.RawIOBase):
             self._encrypt_buffer()
             super().close()
 
+    def __exit__(self, exc_type, exc_value, traceback):
+        if exc_type is not None:
+            # do not make truncated data look like a complete file
+            super().close()
+        return super().__exit__(exc_type, exc_value, traceback)
+
     def _hkdf(self, label: bytes, salt: bytes = b"") -> bytes:
         return hkdf(salt, label, self._file_key, 32)
 
-- 
2.43.0


From 304f64cba84ec5b4e1153a5c4eec4e37f64d1d66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:52:39 +0000
Subject: [PATCH 09/24] fix: refuse writes after close instead of dropping the
 data

---
 src/age/file.py             | 2 ++
 src/age/utils/asciiarmor.py | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/src/age/file.py b/src/age/file.py
index d4f8447..df5133b 100644
--- a/src/age/file.py
+++ b/src/age/file.py
@@ -35,6 +35,8 @@ class Encryptor(io.RawIOBase):
         return True
 
     def write(self, data):
+        if self.closed:
+            raise ValueError("write to closed file")
         self._plaintext_buffer += data
         return len(data)
 
diff --git a/src/age/utils/asciiarmor.py b/src/age/utils/asciiarmor.py
index 238cd07..adb483a 100644
--- a/src/age/utils/asciiarmor.py
+++ b/src/age/utils/asciiarmor.py
@@ -91,6 +91,8 @@ class AsciiArmoredOutput(io.RawIOBase, typing.BinaryIO):
         return True
 
     def write(self, data):
+        if self.closed:
+            raise ValueError("write to closed file")
         self._plaintext_buffer += data
         return len(data)
 
-- 
2.43.0


From 5745654e6f3adc67065bc41baf31f64be054fa7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:52:39 +0000
Subject: [PATCH 10/24] fix: deliver ASCII armored output when it is closed

---
 src/age/cli.py              | 4 ++++
 src/age/utils/asciiarmor.py | 2 ++
 2 files changed, 6 insertions(+)

diff --git a/src/age/cli.py b/src/age/cli.py
index 48d3709..a92ddb7 100644
--- a/src/age/cli.py
+++ b/src/age/cli.py
@@ -93,6 +93,10 @@ def encrypt(
     with Encryptor(keys, outfile) as encryptor:
         encryptor.write(infile.read())
 
+    if ascii_armored:
+        # report write errors, do not leave the output to the garbage collector
+        outfile.close()
+
 
 def decrypt(
     infile: typing.Optional[typing.BinaryIO] = None,
diff --git a/src/age/utils/asciiarmor.py b/src/age/utils/asciiarmor.py
index adb483a..fa77f51 100644
--- a/src/age/utils/asciiarmor.py
+++ b/src/age/utils/asciiarmor.py
@@ -115,6 +115,8 @@ class AsciiArmoredOutput(io.RawIOBase, typing.BinaryIO):
 
     def _encode_buffer(self):
         write_ascii_armored(self._text_stream, self._label, self._plaintext_buffer)
+        # flushes, and leaves closing the underlying stream to its owner
+        self._text_stream.detach()
         self._plaintext_buffer = b""
 
 
-- 
2.43.0


From 5d3b624b05b37c0872aac3f3174a2bb395db00af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:21 +0000
Subject: [PATCH 11/24] fix: check the complete padding of OpenSSH private keys

---
 src/age/openssh_keys.py | 11 +++--------
 1 file changed, 3 insertions(+), 8 deletions(-)

diff --git a/src/age/openssh_keys.py b/src/age/openssh_keys.py
index b382024..941417a 100644
--- a/src/age/openssh_keys.py
+++ b/src/age/openssh_keys.py
@@ -260,14 +260,9 @@ def load_openssh_private_key(
     # discard key comment
     _sshbuf_get_cstring(decrypted_stream)
 
-    # check deterministic padding: \x01\x02\x03\x04.. up til max. \x07
-    for i in range(1, 8):
-        try:
-            (pad,) = _read_struct(decrypted_stream, "B")
-        except struct.error:
-            # EOF
-            break
-        if pad != i:
+    # check deterministic padding: \x01\x02\x03\x04.. up to the end
+    for i, pad in enumerate(decrypted_stream.read(), start=1):
+        if pad != i & 0xFF:
             raise InvalidKeyFile("Broken file padding")
 
     return key
-- 
2.43.0


From f423e071a632271a0284e84e70b7ae4ebfd0416f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:49 +0000
Subject: [PATCH 12/24] fix: reject excess base64 padding in ASCII armor

---
 src/age/utils/asciiarmor.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/age/utils/asciiarmor.py b/src/age/utils/asciiarmor.py
index fa77f51..6c349c3 100644
--- a/src/age/utils/asciiarmor.py
+++ b/src/age/utils/asciiarmor.py
@@ -53,7 +53,11 @@ def read_ascii_armored(
                             elif len(buffer_line) < PEM_LINE_LENGTH and i != len(buffer) - 1:
                                 raise ValueError("PEM line too short")
 
-                    data = base64.b64decode("".join(buffer), validate=True)
+                    body = "".join(buffer)
+                    data = base64.b64decode(body, validate=True)
+                    # b64decode overlooks excess padding after a complete quantum
+                    if base64.b64encode(data).decode("ascii") != body:
+                        raise ValueError("invalid base64 encoding")
                     yield (in_label, data)
 
                     in_label = None
-- 
2.43.0


From 877e97baf596c276c2be91e16877ceb6fd7280a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:56 +0000
Subject: [PATCH 13/24] fix: reject Ed25519 private keys that do not match
 their public key

---
 src/age/openssh_keys.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/age/openssh_keys.py b/src/age/openssh_keys.py
index 941417a..355451f 100644
--- a/src/age/openssh_keys.py
+++ b/src/age/openssh_keys.py
@@ -9,6 +9,7 @@ from cryptography.hazmat.primitives.asymmetric import dsa, ec, ed25519, rsa
 from cryptography.hazmat.primitives.ciphers import Cipher
 from cryptography.hazmat.primitives.ciphers import algorithms as cipher_algos
 from cryptography.hazmat.primitives.ciphers import modes as cipher_modes
+from cryptography.hazmat.primitives.serialization import Encoding, PublicFormat
 
 from age.utils.asciiarmor import read_ascii_armored
 
@@ -127,7 +128,10 @@ def _deserialize_ed25519_private_key(stream: typing.BinaryIO) -> ed25519.Ed25519
     private_key_bytes = _sshbuf_get_cstring(stream)
     assert len(private_key_bytes) == 64
     assert private_key_bytes[32:] == public_key_bytes
-    return ed25519.Ed25519PrivateKey.from_private_bytes(private_key_bytes[:32])
+    key = ed25519.Ed25519PrivateKey.from_private_bytes(private_key_bytes[:32])
+    if key.public_key().public_bytes(Encoding.Raw, PublicFormat.Raw) != public_key_bytes:
+        raise InvalidKeyFile("Ed25519 private and public key do not match")
+    return key
 
 
 def _decrypt_key(
-- 
2.43.0


From 9811e7fc9b72e3e216c7cf25a4d0ffa3d96a4cb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:59 +0000
Subject: [PATCH 14/24] fix: find SSH keys below directories with glob
 characters in their name

---
 src/age/keyloader.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/age/keyloader.py b/src/age/keyloader.py
index 6cf154b..4e2f4ff 100644
--- a/src/age/keyloader.py
+++ b/src/age/keyloader.py
@@ -70,7 +70,7 @@ def load_ssh_keys(root="~/.ssh") -> typing.Collection[DecryptionKey]:
 
     keys = []
 
-    for filename in glob.glob(os.path.join(root, "id_*")):
+    for filename in glob.glob(os.path.join(glob.escape(root), "id_*")):
         try:
             key = load_ssh_private_key(filename)
         except Exception as e:
-- 
2.43.0


From 7eb3cf901399c14520324fca1436c1d26e598cd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:22 +0000
Subject: [PATCH 15/24] fix: reject OpenSSH key data that ends within a string

---
 src/age/openssh_keys.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/age/openssh_keys.py b/src/age/openssh_keys.py
index 355451f..6af24b3 100644
--- a/src/age/openssh_keys.py
+++ b/src/age/openssh_keys.py
@@ -39,7 +39,10 @@ def _read_struct(stream: typing.BinaryIO, fmt: str) -> tuple:
 
 def _sshbuf_get_cstring(stream: typing.BinaryIO) -> bytes:
     (length,) = _read_struct(stream, ">I")  # read data in the format: 32-bit length, data[length]
-    return stream.read(length)
+    data = stream.read(length)
+    if len(data) != length:
+        raise InvalidKeyFile("Unexpected end of data")
+    return data
 
 
 def _sshbuf_get_bignum2(stream: typing.BinaryIO) -> int:
-- 
2.43.0


From b64c3c679366b5d7ac9fe5b574c8987ec30e1e22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:30 +0000
Subject: [PATCH 16/24] fix: reject OpenSSH DSA keys with inconsistent
 parameters

---
 src/age/openssh_keys.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/age/openssh_keys.py b/src/age/openssh_keys.py
index 6af24b3..bb06137 100644
--- a/src/age/openssh_keys.py
+++ b/src/age/openssh_keys.py
@@ -91,6 +91,10 @@ def _deserialize_dsa_private_key(stream: typing.BinaryIO) -> dsa.DSAPrivateKey:
     dsa_pub_key = _sshbuf_get_bignum2(stream)
     dsa_priv_key = _sshbuf_get_bignum2(stream)
 
+    # the library does not check that the generator generates a subgroup of order q
+    if (dsa_p - 1) % dsa_q != 0 or pow(dsa_g, dsa_q, dsa_p) != 1:
+        raise InvalidKeyFile("Inconsistent DSA parameters")
+
     parameter_numbers = dsa.DSAParameterNumbers(p=dsa_p, q=dsa_q, g=dsa_g)
     public_numbers = dsa.DSAPublicNumbers(y=dsa_pub_key, parameter_numbers=parameter_numbers)
     private_numbers = dsa.DSAPrivateNumbers(x=dsa_priv_key, public_numbers=public_numbers)
-- 
2.43.0


From def1fe6bf036d0bf07276c1142e109bdfd11ea7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:39:15 +0000
Subject: [PATCH 17/24] fix: split downloaded key lists into lines like files

---
 src/age/keyloader.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/age/keyloader.py b/src/age/keyloader.py
index 4e2f4ff..8bb1a80 100644
--- a/src/age/keyloader.py
+++ b/src/age/keyloader.py
@@ -1,5 +1,6 @@
 import collections
 import glob
+import io
 import os.path
 import re
 import sys
@@ -146,7 +147,8 @@ def resolve_public_key(
         resolved_from_url: typing.List[EncryptionKey] = []
         response = requests.get(keystr)
         response.raise_for_status()
-        for line in response.text.splitlines():
+        # same notion of lines as in files (str.splitlines() knows many more line breaks)
+        for line in io.StringIO(response.text, newline=None):
             resolved_from_url.extend(
                 resolve_public_key(line, read_aliases=False, read_files=False, read_urls=False)
             )
-- 
2.43.0


From 9994cb6c1bd4491034ed8b312386ba22364c1de4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:42:41 +0000
Subject: [PATCH 18/24] fix: read the input before writing output, which may be
 the same file

---
 src/age/cli.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/age/cli.py b/src/age/cli.py
index a92ddb7..183557b 100644
--- a/src/age/cli.py
+++ b/src/age/cli.py
@@ -86,12 +86,15 @@ def encrypt(
         print("You must specify at least one recipient.", file=sys.stderr)
         sys.exit(1)
 
+    # read everything before the first write, the input file may also be the output file
+    plaintext = infile.read()
+
     if ascii_armored:
         # ignoring mypy error because RawIOBase satisfies BinaryIO (doesn't it?)
         outfile = AsciiArmoredOutput(AGE_PEM_LABEL, outfile)  # type: ignore
 
     with Encryptor(keys, outfile) as encryptor:
-        encryptor.write(infile.read())
+        encryptor.write(plaintext)
 
     if ascii_armored:
         # report write errors, do not leave the output to the garbage collector
-- 
2.43.0


From c5ea46123e1e485878992c1220d76da05347cb44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:43:00 +0000
Subject: [PATCH 19/24] fix: write output completely to unbuffered streams

---
 src/age/cli.py | 37 +++++++++++++++++++++++++++----------
 1 file changed, 27 insertions(+), 10 deletions(-)

diff --git a/src/age/cli.py b/src/age/cli.py
index 183557b..289efea 100644
--- a/src/age/cli.py
+++ b/src/age/cli.py
@@ -1,5 +1,6 @@
 #!/usr/bin/env python3
 
+import contextlib
 import io
 import os
 import stat
@@ -19,6 +20,21 @@ from age.utils.asciiarmor import AGE_PEM_LABEL, AsciiArmoredInput, AsciiArmoredO
 from age.utils.copy_doc import copy_doc
 
 
+@contextlib.contextmanager
+def _complete_writes(stream: typing.BinaryIO) -> typing.Iterator[typing.BinaryIO]:
+    """Raw streams, e.g. stdout with PYTHONUNBUFFERED=1, may write less than they are told to."""
+    if not isinstance(stream, io.RawIOBase):
+        yield stream
+        return
+
+    buffered = io.BufferedWriter(stream)  # type: ignore
+    try:
+        yield buffered  # type: ignore
+    finally:
+        # flushes, and leaves closing the stream to its owner
+        buffered.detach()
+
+
 def encrypt(
     recipients: typing.Optional[typing.List[str]] = None,
     infile: typing.Optional[typing.BinaryIO] = None,
@@ -89,16 +105,17 @@ def encrypt(
     # read everything before the first write, the input file may also be the output file
     plaintext = infile.read()
 
-    if ascii_armored:
-        # ignoring mypy error because RawIOBase satisfies BinaryIO (doesn't it?)
-        outfile = AsciiArmoredOutput(AGE_PEM_LABEL, outfile)  # type: ignore
+    with _complete_writes(outfile) as output:
+        if ascii_armored:
+            # ignoring mypy error because RawIOBase satisfies BinaryIO (doesn't it?)
+            output = AsciiArmoredOutput(AGE_PEM_LABEL, output)  # type: ignore
 
-    with Encryptor(keys, outfile) as encryptor:
-        encryptor.write(plaintext)
+        with Encryptor(keys, output) as encryptor:
+            encryptor.write(plaintext)
 
-    if ascii_armored:
-        # report write errors, do not leave the output to the garbage collector
-        outfile.close()
+        if ascii_armored:
+            # report write errors, do not leave the output to the garbage collector
+            output.close()
 
 
 def decrypt(
@@ -149,8 +166,8 @@ def decrypt(
         # ignoring mypy error because RawIOBase satisfies BinaryIO (doesn't it?)
         infile = AsciiArmoredInput(AGE_PEM_LABEL, infile)  # type: ignore
 
-    with Decryptor(keys, infile) as decryptor:
-        outfile.write(decryptor.read())
+    with Decryptor(keys, infile) as decryptor, _complete_writes(outfile) as output:
+        output.write(decryptor.read())
 
 
 def generate(outfile: typing.Optional[typing.TextIO] = None) -> None:
-- 
2.43.0


From 043f5540789ced9c129d731ab4c210045084f585 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:25 +0000
Subject: [PATCH 20/24] fix: prompt for the passphrase on standard error

The prompt was written to standard output, in front of the encrypted file
or the decrypted data when these go there.
---
 src/age/cli.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/age/cli.py b/src/age/cli.py
index 289efea..625342f 100644
--- a/src/age/cli.py
+++ b/src/age/cli.py
@@ -95,7 +95,7 @@ def encrypt(
                 + "the message content and recipient list.",
                 file=sys.stderr,
             )
-        password = click.prompt("Type passphrase", hide_input=True).encode("utf-8")
+        password = click.prompt("Type passphrase", hide_input=True, err=True).encode("utf-8")
         keys.append(PasswordKey(password))
 
     if not keys:
@@ -155,7 +155,7 @@ def decrypt(
         keys.extend(load_keys_txt(keyfile))
 
     if ask_password:
-        password = click.prompt("Type passphrase", hide_input=True).encode("utf-8")
+        password = click.prompt("Type passphrase", hide_input=True, err=True).encode("utf-8")
         keys.append(PasswordKey(password))
 
     if not keys:
-- 
2.43.0


From 0d3b6bf23dd5a5e3d845c75951fb3e904cbcd9c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:15 +0000
Subject: [PATCH 21/24] fix: do not mistake sockets for regular files when
 generating keys

S_IFREG is one bit of a type field; sockets have it as well, and got a
warning about the permissions of the output file.
---
 src/age/cli.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/age/cli.py b/src/age/cli.py
index 625342f..fe04d40 100644
--- a/src/age/cli.py
+++ b/src/age/cli.py
@@ -196,7 +196,7 @@ def generate(outfile: typing.Optional[typing.TextIO] = None) -> None:
         pass
     else:
         mode = stat_result[stat.ST_MODE]
-        if mode & stat.S_IFREG and (mode & stat.S_IRWXO or mode & stat.S_IRWXG):
+        if stat.S_ISREG(mode) and (mode & stat.S_IRWXO or mode & stat.S_IRWXG):
             perms = mode & 0o777
             print(
                 f"Warning: The file permissions ({perms:o}) indicate that other users may have access to the output.",
-- 
2.43.0


From 7e28be440ff07fe6c6759e4fd1df77b818f16357 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:52 +0000
Subject: [PATCH 22/24] fix: reject age keys spelled with non-ASCII look-alikes
 of their letters

---
 src/age/keys/agekey.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/age/keys/agekey.py b/src/age/keys/agekey.py
index a263b4b..87abb34 100644
--- a/src/age/keys/agekey.py
+++ b/src/age/keys/agekey.py
@@ -33,6 +33,9 @@ class AgePrivateKey(DecryptionKey):
     @classmethod
     def from_private_string(cls, data: str):
         """Read an age key from a private key string"""
+        # str.lower() turns some other characters into ASCII letters
+        if not data.isascii():
+            raise ValueError("invalid age private key")
         data = data.lower()
 
         hrp, bytes_ = bech32_decode(data)
@@ -84,6 +87,9 @@ class AgePublicKey(EncryptionKey):
     @classmethod
     def from_public_string(cls, data: str):
         """Read an age public key from a public key string"""
+        # str.lower() turns some other characters into ASCII letters
+        if not data.isascii():
+            raise ValueError("invalid age public key")
         data = data.lower()
 
         hrp, key = bech32_decode(data)
-- 
2.43.0


From 89661b914504adc8abe56a478120993bbfecf1ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:52 +0000
Subject: [PATCH 23/24] fix: keep messages out of the output when there is no
 standard error stream

---
 src/age/cli.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/age/cli.py b/src/age/cli.py
index fe04d40..caece17 100644
--- a/src/age/cli.py
+++ b/src/age/cli.py
@@ -213,7 +213,9 @@ def generate(outfile: typing.Optional[typing.TextIO] = None) -> None:
 @click.group()
 @click.version_option(version=age_version)
 def main():
-    pass
+    # without a standard error stream, print() would write messages to the standard output stream
+    if sys.stderr is None:
+        sys.stderr = open(os.devnull, "w")
 
 
 @main.command("encrypt")
-- 
2.43.0


From 481fc8722ddec021cdfff509d6de9eed01b19e05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:52 +0000
Subject: [PATCH 24/24] fix: encrypt to a file without a standard output stream

---
 src/age/cli.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/age/cli.py b/src/age/cli.py
index caece17..94b62fb 100644
--- a/src/age/cli.py
+++ b/src/age/cli.py
@@ -73,7 +73,8 @@ def encrypt(
     if recipients is None:
         recipients = []
 
-    if outfile is sys.stdout.buffer and sys.stdout.isatty():
+    # there may be no standard output stream
+    if sys.stdout is not None and outfile is sys.stdout.buffer and sys.stdout.isatty():
         print("Refusing to encrypt to a TTY.", file=sys.stderr)
         sys.exit(1)
 
-- 
2.43.0

