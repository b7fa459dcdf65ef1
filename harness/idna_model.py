"""idna on symbolic ASCII names, exactly as idna 3 does on labels that are no A-labels.

A-labels (xn--) and anything that is not ASCII are excluded by an assumption where names are
symbolic; they are covered by concrete names elsewhere."""
import idna


def _labels(sx, s):
    n = len(s)
    labels = [[]]
    for c in list(s):
        if sx.is_true(c == 46):
            labels.append([])
        else:
            labels[-1].append(c)
    return labels


def _check(sx, label):
    """Labels of ASCII text: RFC 5891 sections 4.2.3.1 and RFC 5892 (PVALID)."""
    if not label:
        raise idna.IDNAError('Empty Label')
    if len(label) >= 4:
        sx.assume(sx.neg(sx.all([sx.any([label[0] == 120, label[0] == 88]),
                                 sx.any([label[1] == 110, label[1] == 78]),
                                 label[2] == 45, label[3] == 45])))
        if sx.is_true(sx.all([label[2] == 45, label[3] == 45])):
            raise idna.IDNAError('hyphens')
    if sx.is_true(sx.any([label[0] == 45, label[-1] == 45])):
        raise idna.IDNAError('hyphens')
    low = sx.all([sx.any([sx.all([c >= 97, c <= 122]), sx.all([c >= 65, c <= 90]),
                          sx.all([c >= 48, c <= 57]), c == 45]) for c in label])
    if not sx.is_true(low):
        raise idna.core.InvalidCodepoint('Codepoint not allowed')


def patch_idna(sx):
    if not sx.symbolic:
        return
    from siotls.contents.handshakes.extensions import server_name
    from symex.core import is_sym
    real = server_name.idna

    def split(s):
        labels = _labels(sx, s)
        if labels == [[]]:
            raise idna.IDNAError('Empty domain')
        if not labels[-1]:
            del labels[-1]
        for label in labels:
            _check(sx, label)

    class Model:
        IDNAError = idna.IDNAError
        core = idna.core

        @staticmethod
        def decode(s, *args, **kwargs):
            if not is_sym(s):
                return real.decode(bytes(s), *args, **kwargs)
            for c in list(s):
                if sx.is_true(c >= 128):
                    raise idna.IDNAError('Invalid ASCII in A-label')
            split(s)
            return bytes(s).decode('ascii').lower()

        @staticmethod
        def encode(s, *args, **kwargs):
            if not is_sym(s):
                return real.encode(s, *args, **kwargs)
            s = s.lower().encode()
            split(s)
            return s
    sx.patches._set(server_name, 'idna', Model)
