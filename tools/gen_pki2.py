#!/usr/bin/env python3
"""More fixed certificates (run once, after gen_pki.py; the output is committed)."""
import datetime as dt
import ipaddress
import pathlib
import subprocess
import tempfile
from cryptography import x509
from cryptography.hazmat.primitives import hashes
from cryptography.hazmat.primitives.asymmetric import dsa, ec, ed448, ed25519, x25519
from cryptography.hazmat.primitives.serialization import (
    Encoding, NoEncryption, PrivateFormat, load_der_private_key)
from cryptography.x509.oid import ExtendedKeyUsageOID, NameOID

OUT = pathlib.Path(__file__).parent.parent / 'harness/data'
START = dt.datetime(2020, 1, 1)
END = dt.datetime(2120, 1, 1)

def name(cn):
    return x509.Name([x509.NameAttribute(NameOID.COMMON_NAME, cn)])

def make(n, key, cn, issuer, issuer_key, serial, *, ca=False, san=None, save=True, eku=True):
    public = key.public_key()
    b = (x509.CertificateBuilder().subject_name(name(cn)).issuer_name(issuer)
         .public_key(public).serial_number(serial)
         .not_valid_before(START).not_valid_after(END)
         .add_extension(x509.BasicConstraints(ca, 1 if ca else None), critical=True)
         .add_extension(x509.KeyUsage(not ca, False, False, False, False, ca, ca, False, False), critical=True)
         .add_extension(x509.SubjectKeyIdentifier.from_public_key(public), False)
         .add_extension(x509.AuthorityKeyIdentifier.from_issuer_public_key(issuer_key.public_key()), False)
         .add_extension(x509.SubjectAlternativeName([san or x509.DNSName('ca.example')]), False))
    if not ca and eku:
        b = b.add_extension(x509.ExtendedKeyUsage(
            [ExtendedKeyUsageOID.SERVER_AUTH, ExtendedKeyUsageOID.CLIENT_AUTH]), False)
    cert = b.sign(issuer_key, hashes.SHA256() if isinstance(issuer_key, ec.EllipticCurvePrivateKey) else None)
    (OUT / f'{n}.crt').write_bytes(cert.public_bytes(Encoding.DER))
    if save:
        (OUT / f'{n}.key').write_bytes(key.private_bytes(Encoding.DER, PrivateFormat.PKCS8, NoEncryption()))
    return cert

def main():
    ca = x509.load_der_x509_certificate((OUT / 'ca.crt').read_bytes())
    ca_key = load_der_private_key((OUT / 'ca.key').read_bytes(), None)
    server_key = load_der_private_key((OUT / 'server.key').read_bytes(), None)
    host = x509.DNSName('server.example')
    mid_key = ec.generate_private_key(ec.SECP256R1())
    mid = make('mid', mid_key, 'intermediate', ca.subject, ca_key, 40, ca=True)
    make('leaf', server_key, 'server', mid.subject, mid_key, 41, san=host, save=False)
    make('ip', server_key, 'server', ca.subject, ca_key, 42,
         san=x509.IPAddress(ipaddress.ip_address('192.0.2.7')), save=False)
    ed448_key = ed448.Ed448PrivateKey.generate()
    make('ed448', ed448_key, 'server', name('server'), ed448_key, 43, san=host)
    p521 = ec.generate_private_key(ec.SECP521R1())
    make('p521', p521, 'server', ca.subject, ca_key, 44, san=host)
    brain = ec.generate_private_key(ec.BrainpoolP256R1())
    make('brainpool', brain, 'server', ca.subject, ca_key, 45, san=host)
    xkey = x25519.X25519PrivateKey.generate()
    make('xkey', xkey, 'server', ca.subject, ca_key, 46, san=host, save=False)
    dkey = dsa.generate_private_key(2048)
    make('dsa', dkey, 'server', ca.subject, ca_key, 47, san=host, save=False)
    # what the library does not write: by openssl
    with tempfile.TemporaryDirectory() as tmp:
        def run(*args):
            subprocess.run(['openssl', *args], check=True, cwd=tmp)
        run('genpkey', '-algorithm', 'EC', '-pkeyopt', 'ec_paramgen_curve:P-256', '-pkeyopt',
            'ec_param_enc:explicit', '-out', 'explicit.pem')
        run('req', '-x509', '-new', '-key', 'explicit.pem', '-subj', '/CN=server', '-days', '36500',
            '-addext', 'subjectAltName=DNS:server.example', '-outform', 'DER', '-out', 'explicit.crt')
        run('genpkey', '-algorithm', 'RSA-PSS', '-pkeyopt', 'rsa_keygen_bits:2048', '-out', 'rsapss.pem')
        run('req', '-x509', '-new', '-key', 'rsapss.pem', '-subj', '/CN=server', '-days', '36500',
            '-addext', 'subjectAltName=DNS:server.example', '-outform', 'DER', '-out', 'rsapss.crt')
        run('pkcs8', '-topk8', '-nocrypt', '-in', 'rsapss.pem', '-outform', 'DER', '-out', 'rsapss.key')
        for n in ('explicit.crt', 'rsapss.crt', 'rsapss.key'):
            (OUT / n).write_bytes((pathlib.Path(tmp) / n).read_bytes())
    for issuer, key, serials, n in ((mid.subject, mid_key, (41,), 'mid'), (ca.subject, ca_key, (40,), 'ca_mid')):
        b = x509.CertificateRevocationListBuilder().issuer_name(issuer).last_update(START).next_update(END)
        for serial in serials:
            b = b.add_revoked_certificate(x509.RevokedCertificateBuilder().serial_number(serial)
                                          .revocation_date(START).build())
        (OUT / f'{n}.crl').write_bytes(b.sign(key, hashes.SHA256()).public_bytes(Encoding.DER))

main()
