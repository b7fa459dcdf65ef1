#!/usr/bin/env python3
"""A chain of three whose certificates tell where to ask their status (run once, after
gen_pki2.py; the output is committed)."""
import datetime as dt
import pathlib
from cryptography import x509
from cryptography.hazmat.primitives import hashes
from cryptography.hazmat.primitives.serialization import Encoding, load_der_private_key
from cryptography.x509.oid import AuthorityInformationAccessOID, ExtendedKeyUsageOID, NameOID

OUT = pathlib.Path(__file__).parent.parent / 'harness/data'
START = dt.datetime(2020, 1, 1)
END = dt.datetime(2120, 1, 1)

def key(n):
    return load_der_private_key((OUT / f'{n}.key').read_bytes(), None)

def make(n, cn, public, issuer, issuer_key, serial, url, *, ca=False):
    b = (x509.CertificateBuilder()
         .subject_name(x509.Name([x509.NameAttribute(NameOID.COMMON_NAME, cn)]))
         .issuer_name(issuer).public_key(public).serial_number(serial)
         .not_valid_before(START).not_valid_after(END)
         .add_extension(x509.BasicConstraints(ca, 0 if ca else None), critical=True)
         .add_extension(x509.KeyUsage(not ca, False, False, False, False, ca, ca, False, False), critical=True)
         .add_extension(x509.SubjectKeyIdentifier.from_public_key(public), False)
         .add_extension(x509.AuthorityKeyIdentifier.from_issuer_public_key(issuer_key.public_key()), False)
         .add_extension(x509.AuthorityInformationAccess([x509.AccessDescription(
             AuthorityInformationAccessOID.OCSP, x509.UniformResourceIdentifier(url))]), False)
         .add_extension(x509.SubjectAlternativeName([x509.DNSName('server.example')]), False))
    if not ca:
        b = b.add_extension(x509.ExtendedKeyUsage(
            [ExtendedKeyUsageOID.SERVER_AUTH, ExtendedKeyUsageOID.CLIENT_AUTH]), False)
    cert = b.sign(issuer_key, hashes.SHA256())
    (OUT / f'{n}.crt').write_bytes(cert.public_bytes(Encoding.DER))
    return cert

def main():
    ca = x509.load_der_x509_certificate((OUT / 'ca.crt').read_bytes())
    mid = make('mid_ocsp', 'intermediate', key('mid').public_key(), ca.subject, key('ca'), 50,
               'http://ocsp.example/mid', ca=True)
    make('leaf_ocsp', 'server', key('server').public_key(), mid.subject, key('mid'), 51,
         'http://ocsp.example/leaf')

main()
