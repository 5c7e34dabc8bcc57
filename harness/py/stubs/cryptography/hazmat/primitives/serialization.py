import enum


class Encoding(enum.Enum):
    PEM = "PEM"
    DER = "DER"


class PublicFormat(enum.Enum):
    SubjectPublicKeyInfo = "X.509 subjectPublicKeyInfo with PKCS#1"
    PKCS1 = "Raw PKCS#1"
