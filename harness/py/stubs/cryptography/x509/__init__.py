"""Stand-in for cryptography.x509: just enough DER to read a certificate's subject, key and validity."""
import base64
import datetime
import hashlib
import re

from cryptography.hazmat.primitives.serialization import Encoding, PublicFormat


def _tlv(b, i):
    tag, n, j = b[i], b[i + 1], i + 2
    if n & 0x80:
        k = n & 0x7F
        if k == 0 or k > 4:
            raise ValueError("error parsing asn1 value")
        n = int.from_bytes(b[j : j + k], "big")
        j += k
    if j + n > len(b):
        raise ValueError("error parsing asn1 value: short data")
    return tag, j, j + n


def _children(b, i, e):
    out = []
    while i < e:
        tag, s, n = _tlv(b, i)
        out.append((tag, i, s, n))
        i = n
    return out


class _Name:
    _names = {b"\x55\x04\x03": "CN", b"\x55\x04\x06": "C", b"\x55\x04\x0a": "O", b"\x55\x04\x0b": "OU"}

    def __init__(self, raw):
        self.raw, self.attrs = raw, []
        _, s, e = _tlv(raw, 0)
        for _, _, s1, e1 in _children(raw, s, e):
            for _, _, s2, e2 in _children(raw, s1, e1):
                kv = _children(raw, s2, e2)
                self.attrs.append((self._names.get(raw[kv[0][2] : kv[0][3]], "?"), raw[kv[1][2] : kv[1][3]].decode()))

    def rfc4514_string(self, *a, **k):
        esc = lambda v: re.sub(r'([,+"\\<>;])', r"\\\1", v)
        return ",".join("%s=%s" % (k, esc(v)) for k, v in reversed(self.attrs))

    def public_bytes(self, *a):
        return self.raw


class _Key:
    def __init__(self, spki):
        self.spki = spki

    def public_bytes(self, encoding=None, format=None):
        if encoding is Encoding.DER and format is PublicFormat.SubjectPublicKeyInfo:
            return self.spki
        raise ValueError("unsupported in the stand-in")


class Certificate:
    def __init__(self, der):
        self.der = der
        tag, s, e = _tlv(der, 0)
        if tag != 0x30 or e != len(der):
            raise ValueError("error parsing asn1 value")
        tbs = _children(der, s, e)[0]
        f = _children(der, tbs[2], tbs[3])
        f = f[1:] if f[0][0] == 0xA0 else f
        cut = lambda x: der[x[1] : x[3]]
        self.serial_number = int.from_bytes(der[f[0][2] : f[0][3]], "big")
        self.issuer, self.subject, self.spki = _Name(cut(f[2])), _Name(cut(f[4])), cut(f[5])
        v = _children(der, f[3][2], f[3][3])
        day = lambda x: datetime.datetime.strptime(der[x[2] : x[3]].decode(), "%y%m%d%H%M%SZ" if x[0] == 0x17 else "%Y%m%d%H%M%SZ")
        self.not_valid_before, self.not_valid_after = day(v[0]), day(v[1])
        self.not_valid_before_utc, self.not_valid_after_utc = (x.replace(tzinfo=datetime.timezone.utc) for x in (self.not_valid_before, self.not_valid_after))

    def public_bytes(self, encoding):
        if encoding is Encoding.DER:
            return self.der
        return b"-----BEGIN CERTIFICATE-----\n" + base64.encodebytes(self.der) + b"-----END CERTIFICATE-----\n"

    def public_key(self):
        return _Key(self.spki)

    def fingerprint(self, algorithm):
        return hashlib.sha256(self.der).digest()


def load_der_x509_certificate(data, backend=None):
    try:
        return Certificate(data)
    except (IndexError, UnicodeDecodeError) as e:
        raise ValueError(str(e))


def load_pem_x509_certificate(data, backend=None):
    m = re.search(rb"-----BEGIN CERTIFICATE-----(.*?)-----END CERTIFICATE-----", data, re.S)
    if not m:
        raise ValueError("Unable to load PEM file.")
    try:
        der = base64.b64decode(b"".join(m.group(1).split()), validate=True)
    except Exception:
        raise ValueError("Unable to load PEM file.")
    return load_der_x509_certificate(der, backend)
