"""Certificates that load while their public key does not: an unknown algorithm, a bad point."""
import pathlib

from cryptography import x509
from cryptography.hazmat.primitives.serialization import Encoding, PublicFormat

OUT = pathlib.Path(__file__).resolve().parent.parent / 'harness' / 'data'

def main():
    ed = (OUT / 'ed.crt').read_bytes()
    spki = bytes.fromhex('302a300506032b6570032100')
    assert ed.count(spki) == 1
    (OUT / 'odd_oid.crt').write_bytes(ed.replace(spki, bytes.fromhex('302a300506032b6579032100')))
    ec = (OUT / 'server.crt').read_bytes()
    point = x509.load_der_x509_certificate(ec).public_key().public_bytes(
        Encoding.X962, PublicFormat.UncompressedPoint)
    assert ec.count(point) == 1
    (OUT / 'odd_point.crt').write_bytes(ec.replace(point, point[:-1] + bytes([point[-1] ^ 1])))

main()
