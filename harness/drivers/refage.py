"""Independent reference for the age v1 file format (no code of /repo is used here).

It is the abstraction function between bytes and the specification's symbolic files: it takes
files apart, opens stanzas, computes MACs and seals/opens single chunks."""
import base64
import hashlib
import hmac as hmac_

from cryptography.exceptions import InvalidTag
from cryptography.hazmat.primitives import hashes, serialization
from cryptography.hazmat.primitives.asymmetric import ed25519, padding, x25519
from cryptography.hazmat.primitives.ciphers.aead import ChaCha20Poly1305

INTRO = b"age-encryption.org/v1"
CHUNK = 65536


def hkdf(salt, info, ikm, n):
    prk = hmac_.new(salt or b"\0" * 32, ikm, hashlib.sha256).digest()
    out, t, i = b"", b"", 1
    while len(out) < n:
        t = hmac_.new(prk, t + info + bytes([i]), hashlib.sha256).digest()
        out, i = out + t, i + 1
    return out[:n]


def b64(data):
    return base64.b64encode(data).decode().rstrip("=")


def unb64(text):
    if isinstance(text, bytes):
        text = text.decode("ascii")
    if "=" in text or len(text) % 4 == 1:
        raise ValueError("base64")
    return base64.b64decode(text + "=" * (-len(text) % 4), validate=True)


def seal(key, data, nonce=b"\0" * 12):
    return ChaCha20Poly1305(key).encrypt(nonce, data, None)


def unseal(key, data, nonce=b"\0" * 12):
    try:
        return ChaCha20Poly1305(key).decrypt(nonce, data, None)
    except InvalidTag:
        return None


def xmul(scalar, point):
    return x25519.X25519PrivateKey.from_private_bytes(scalar).exchange(
        x25519.X25519PublicKey.from_public_bytes(point))


def xbase(scalar):
    return x25519.X25519PrivateKey.from_private_bytes(scalar).public_key().public_bytes(
        serialization.Encoding.Raw, serialization.PublicFormat.Raw)


P25519 = 2 ** 255 - 19
L25519 = 2 ** 252 + 27742317777372353535851937790883648493


def ed_pub_to_x(pub):
    y = int.from_bytes(pub, "little") & ((1 << 255) - 1)
    return ((1 + y) * pow(1 - y, P25519 - 2, P25519) % P25519).to_bytes(32, "little")


def ssh_string(b):
    return len(b).to_bytes(4, "big") + b


def mpint(n):
    b = n.to_bytes((n.bit_length() + 8) // 8, "big")
    return ssh_string(b)


def ed_blob(pub):
    return ssh_string(b"ssh-ed25519") + ssh_string(pub)


def rsa_blob(pub):
    n = pub.public_numbers()
    return ssh_string(b"ssh-rsa") + mpint(n.e) + mpint(n.n)


def ed_tweak(pub):
    h = hkdf(ed_blob(pub), b"age-encryption.org/v1/ssh-ed25519", b"", 64)
    return (int.from_bytes(h, "little") % L25519).to_bytes(32, "little")


OAEP = padding.OAEP(padding.MGF1(hashes.SHA256()), hashes.SHA256(),
                    b"age-encryption.org/v1/ssh-rsa")

scrypt_kdf = None  # set by the driver: (password, salt, n, r, p, length) -> bytes


def default_scrypt(password, salt, n, r, p, length):
    return hashlib.scrypt(password, salt=salt, n=n, r=r, p=p, dklen=length, maxmem=2 ** 31 - 1)


def _scrypt(password, salt, log_cost):
    return (scrypt_kdf or default_scrypt)(password, b"age-encryption.org/v1/scrypt" + salt,
                                          1 << log_cost, 8, 1, 32)


class Ident:
    """kind: x (raw 32 bytes), e (ed25519 seed), r (RSA private key object), p (bytes)"""

    def __init__(self, kind, secret):
        self.kind, self.secret = kind, secret
        if kind == "x":
            self.pub = xbase(secret)
        elif kind == "e":
            self.pub = ed25519.Ed25519PrivateKey.from_private_bytes(secret).public_key(
            ).public_bytes(serialization.Encoding.Raw, serialization.PublicFormat.Raw)
        elif kind == "r":
            self.pub = secret.public_key()
        else:
            self.pub = None

    def tag(self):
        blob = ed_blob(self.pub) if self.kind == "e" else rsa_blob(self.pub)
        return hashlib.sha256(blob).digest()[:4]

    def wrap(self, file_key, rnd, log_cost=10):
        """-> (type, [args], body bytes)"""
        if self.kind == "x":
            eph = rnd(32)
            share = xbase(eph)
            key = hkdf(share + self.pub, b"age-encryption.org/v1/X25519", xmul(eph, self.pub), 32)
            return "X25519", [b64(share)], seal(key, file_key)
        if self.kind == "e":
            eph = rnd(32)
            share = xbase(eph)
            target = xmul(ed_tweak(self.pub), ed_pub_to_x(self.pub))
            key = hkdf(share + target, b"age-encryption.org/v1/X25519", xmul(eph, target), 32)
            return "ssh-ed25519", [b64(self.tag()), b64(share)], seal(key, file_key)
        if self.kind == "r":
            return "ssh-rsa", [b64(self.tag())], self.pub.encrypt(file_key, OAEP)
        salt = rnd(16)
        return ("scrypt", [b64(salt), str(log_cost)],
                seal(_scrypt(self.secret, salt, log_cost), file_key))

    def unwrap(self, typ, args, body):
        """strictly formed stanza -> file key, or None"""
        try:
            if self.kind == "x" and typ == "X25519" and len(args) == 1:
                share = unb64(args[0])
                if len(share) != 32:
                    return None
                key = hkdf(share + self.pub, b"age-encryption.org/v1/X25519",
                           xmul(self.secret, share), 32)
                return unseal(key, body)
            if self.kind == "e" and typ == "ssh-ed25519" and len(args) == 2:
                share = unb64(args[1])
                if len(share) != 32 or unb64(args[0]) != self.tag():
                    return None
                tweak = ed_tweak(self.pub)
                target = xmul(tweak, ed_pub_to_x(self.pub))
                scalar = hashlib.sha512(self.secret).digest()[:32]
                key = hkdf(share + target, b"age-encryption.org/v1/X25519",
                           xmul(scalar, xmul(tweak, share)), 32)
                return unseal(key, body)
            if self.kind == "r" and typ == "ssh-rsa" and len(args) == 1:
                if unb64(args[0]) != self.tag():
                    return None
                return self.secret.decrypt(body, OAEP)
            if self.kind == "p" and typ == "scrypt" and len(args) == 2:
                salt, cost = unb64(args[0]), int(args[1])
                if len(salt) != 16 or not 0 < cost <= 22:
                    return None
                return unseal(_scrypt(self.secret, salt, cost), body)
        except ValueError:
            return None
        return None


def wrap64(text):
    """body text -> lines: full lines of 64, ended by one shorter line"""
    lines = [text[i:i + 64] for i in range(0, len(text), 64)]
    if not lines or len(lines[-1]) == 64:
        lines.append("")
    return lines


def render_stanza(typ, args, body):
    return ("-> " + " ".join([typ, *args]) + "\n" +
            "".join(x + "\n" for x in wrap64(b64(body)))).encode()


def header_mac(file_key, text):
    return hmac_.new(hkdf(b"", b"header", file_key, 32), text, hashlib.sha256).digest()


def render_header(stanzas, file_key):
    text = INTRO + b"\n" + b"".join(render_stanza(*s) for s in stanzas) + b"---"
    return text + b" " + b64(header_mac(file_key, text)).encode() + b"\n"


def chunk_nonce(ctr, last):
    return ctr.to_bytes(11, "big") + (b"\1" if last else b"\0")


def payload_key(file_key, nonce):
    return hkdf(nonce, b"payload", file_key, 32)


def seal_payload(file_key, nonce, data, chunk=CHUNK):
    key = payload_key(file_key, nonce)
    parts = [data[i:i + chunk] for i in range(0, max(len(data), 1), chunk)]
    return nonce + b"".join(seal(key, p, chunk_nonce(i, i == len(parts) - 1))
                            for i, p in enumerate(parts))


def make_file(stanzas, file_key, nonce, data):
    return render_header(stanzas, file_key) + seal_payload(file_key, nonce, data)


class Parts:
    """A file taken apart.  intro, stanzas[i] = (head line, [body lines]), mac line (all without
    the newline), payload = everything after the MAC line."""

    def __init__(self, data):
        lines, pos = [], 0
        while True:
            end = data.index(b"\n", pos)
            lines.append(data[pos:end])
            pos = end + 1
            if lines[-1].startswith(b"---"):
                break
        self.intro, self.mac = lines[0], lines[-1]
        self.payload = data[pos:]
        self.header_len = pos
        self.stanzas, self.junk = [], []
        for line in lines[1:-1]:
            if line.startswith(b"-> "):
                self.stanzas.append((line, []))
            elif self.stanzas:
                self.stanzas[-1][1].append(line)
            else:
                self.junk.append(line)

    def fields(self, i):
        head, body = self.stanzas[i]
        typ, *args = head.decode().split(" ")[1:]
        return typ, args, unb64(b"".join(body))


# --------------------------------------------------------------------------- key texts
_CH = "qpzry9x8gf2tvdw0s3jn54khce6mua7l"


def bech32_encode(hrp, data):
    v = int.from_bytes(data, "big") << (-8 * len(data) % 5)
    n = (8 * len(data) + 4) // 5
    d = [v >> 5 * (n - 1 - i) & 31 for i in range(n)]
    c = 1
    for x in [ord(h) >> 5 for h in hrp] + [0] + [ord(h) & 31 for h in hrp] + d + [0] * 6:
        t = c >> 25
        c = (c & 0x1ffffff) << 5 ^ x
        for i, g in enumerate((0x3b6a57b2, 0x26508e6d, 0x1ea119fa, 0x3d4233dd, 0x2a1462b3)):
            c ^= g if t >> i & 1 else 0
    return hrp + "1" + "".join(_CH[x] for x in d + [(c ^ 1) >> 5 * (5 - i) & 31 for i in range(6)])


# --------------------------------------------------------------------------- reading complete files
def read_file(data, idents):
    """plaintext of a well-formed binary file, None if anything is wrong"""
    try:
        p = Parts(data)
        if p.intro != INTRO or p.junk:
            return None
        text = data[:p.header_len - len(p.mac) - 1] + b"---"
        for i in range(len(p.stanzas)):
            typ, args, body = p.fields(i)
            for d in idents:
                key = d.unwrap(typ, args, body)
                if key is None:
                    continue
                if p.mac != b"--- " + b64(header_mac(key, text)).encode():
                    return None
                nonce, rest = p.payload[:16], p.payload[16:]
                if len(nonce) != 16 or not rest:
                    return None
                k, out = payload_key(key, nonce), []
                parts = [rest[j:j + CHUNK + 16] for j in range(0, len(rest), CHUNK + 16)]
                for j, c in enumerate(parts):
                    m = unseal(k, c, chunk_nonce(j, j == len(parts) - 1))
                    if m is None or (not m and j):
                        return None
                    out.append(m)
                return b"".join(out)
    except (ValueError, IndexError, UnicodeDecodeError):
        pass
    return None


def armor(data):
    t = base64.b64encode(data).decode()
    return "".join(x + "\n" for x in ["-----BEGIN AGE ENCRYPTED FILE-----"] + [t[i:i + 64] for i in range(0, len(t), 64)]
                   + ["-----END AGE ENCRYPTED FILE-----"]).encode()


def dearmor(text):
    try:
        ls = text.decode("ascii").split("\n")
        if ls[-1] == "":
            ls.pop()
        if ls[0] != "-----BEGIN AGE ENCRYPTED FILE-----" or ls[-1] != "-----END AGE ENCRYPTED FILE-----":
            return None
        data = base64.b64decode("".join(ls[1:-1]), validate=True)
        return data if armor(data).rstrip(b"\n") == text.rstrip(b"\n") else None
    except (ValueError, IndexError):
        return None
