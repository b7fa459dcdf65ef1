#!/usr/bin/env python3
"""Generates the fixed certificates and keys of the harness (run once; the output is committed)."""
import datetime as dt
import pathlib
from cryptography import x509
from cryptography.hazmat.primitives import hashes
from cryptography.hazmat.primitives.asymmetric import ec, ed25519, rsa
from cryptography.hazmat.primitives.serialization import Encoding, NoEncryption, PrivateFormat
from cryptography.x509.oid import AuthorityInformationAccessOID, ExtendedKeyUsageOID, NameOID

OUT = pathlib.Path(__file__).parent.parent / 'harness/data'
START = dt.datetime(2020, 1, 1)
END = dt.datetime(2120, 1, 1)

def name(cn):
    return x509.Name([x509.NameAttribute(NameOID.COMMON_NAME, cn)])

def ku(ca):
    return x509.KeyUsage(not ca, False, False, False, False, ca, ca, False, False)

def save_key(n, key):
    (OUT / f'{n}.key').write_bytes(key.private_bytes(
        Encoding.DER, PrivateFormat.PKCS8, NoEncryption()))

def make(n, key, cn, issuer, issuer_key, serial, *, ca=False, host=None, start=START, end=END,
         alg=hashes.SHA256(), ocsp=None):
    b = (x509.CertificateBuilder().subject_name(name(cn))
         .issuer_name(issuer.subject if issuer else name(cn))
         .public_key(key.public_key()).serial_number(serial)
         .not_valid_before(start).not_valid_after(end)
         .add_extension(x509.BasicConstraints(ca, 2 if ca else None), critical=True)
         .add_extension(ku(ca), critical=True)
         .add_extension(x509.SubjectKeyIdentifier.from_public_key(key.public_key()), False)
         .add_extension(x509.AuthorityKeyIdentifier.from_issuer_public_key(
             issuer_key.public_key()), False))
    if not ca:
        b = b.add_extension(x509.ExtendedKeyUsage(
            [ExtendedKeyUsageOID.SERVER_AUTH, ExtendedKeyUsageOID.CLIENT_AUTH]), False)
        b = b.add_extension(x509.SubjectAlternativeName([x509.DNSName(host)]), False)
    else:
        b = b.add_extension(x509.SubjectAlternativeName([x509.DNSName('ca.example')]), False)
    if ocsp:
        b = b.add_extension(x509.AuthorityInformationAccess([x509.AccessDescription(
            AuthorityInformationAccessOID.OCSP, x509.UniformResourceIdentifier(ocsp))]), False)
    cert = b.sign(issuer_key, alg if not isinstance(issuer_key, ed25519.Ed25519PrivateKey) else None)
    (OUT / f'{n}.crt').write_bytes(cert.public_bytes(Encoding.DER))
    return cert

def main():
    OUT.mkdir(exist_ok=True)
    ca_key = ec.generate_private_key(ec.SECP256R1())
    ca = make('ca', ca_key, 'harness CA', None, ca_key, 1, ca=True)
    ca2_key = ec.generate_private_key(ec.SECP256R1())
    ca2 = make('ca2', ca2_key, 'another CA', None, ca2_key, 2, ca=True)
    save_key('ca', ca_key); save_key('ca2', ca2_key)
    server_key = ec.generate_private_key(ec.SECP256R1())
    save_key('server', server_key)
    make('server', server_key, 'server', ca, ca_key, 10, host='server.example')
    make('server_ocsp', server_key, 'server', ca, ca_key, 14, host='server.example',
         ocsp='http://ocsp.example/')
    other_key = ec.generate_private_key(ec.SECP256R1())
    save_key('other', other_key)
    make('other_ca', other_key, 'server', ca2, ca2_key, 11, host='server.example')
    make('other_host', other_key, 'server', ca, ca_key, 12, host='other.example')
    make('expired', other_key, 'server', ca, ca_key, 13, host='server.example',
         end=dt.datetime(2021, 1, 1))
    make('revoked', other_key, 'server', ca, ca_key, 15, host='server.example')
    ed_key = ed25519.Ed25519PrivateKey.generate()
    save_key('ed', ed_key)
    make('ed', ed_key, 'ed', None, ed_key, 20, host='server.example')
    ed2_key = ed25519.Ed25519PrivateKey.generate()
    save_key('ed2', ed2_key)
    make('ed2', ed2_key, 'ed2', None, ed2_key, 21, host='server.example')
    p384 = ec.generate_private_key(ec.SECP384R1())
    save_key('p384', p384)
    make('p384', p384, 'server', ca, ca_key, 30, host='server.example')
    rsa_key = rsa.generate_private_key(65537, 2048)
    save_key('rsa', rsa_key)
    make('rsa', rsa_key, 'server', ca, ca_key, 31, host='server.example')
    crl = (x509.CertificateRevocationListBuilder().issuer_name(ca.subject)
           .last_update(START).next_update(END)
           .add_revoked_certificate(x509.RevokedCertificateBuilder().serial_number(15)
                                    .revocation_date(START).build())
           .sign(ca_key, hashes.SHA256()))
    (OUT / 'ca.crl').write_bytes(crl.public_bytes(Encoding.DER))

main()
