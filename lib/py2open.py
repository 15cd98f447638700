"""Binary reads that compare equal to Python 2 strings.

Under Python 2 a format identifier read from a binary file is a str. The translation of the sources to Python 3 reads bytes, so that
the readers would refuse every file. This replacement for the translation's open returns bytes which equal the latin-1 text too."""

import builtins
import io

_original = builtins._py2_open


class Text(bytes):
    """Bytes that equal the str of the same characters."""

    def __eq__(self, other):
        return bytes.__eq__(self, other.encode('latin-1')) if isinstance(other, str) else bytes.__eq__(self, other)

    def __ne__(self, other):
        return not self == other

    __hash__ = bytes.__hash__

    def __getitem__(self, index):
        result = bytes.__getitem__(self, index)
        return Text(result) if isinstance(result, bytes) else Text(bytes([result]))


class Reader(io.BufferedReader):
    def read(self, *args):
        return Text(io.BufferedReader.read(self, *args))


def opener(file, mode='r', buffering=-1, *args, **kwargs):
    if 'b' in mode and not set(mode) & set('wax+') and buffering != 0:
        return Reader(io.open(file, mode, 0, *args, **kwargs))
    return _original(file, mode, buffering, *args, **kwargs)


builtins._py2_open = opener
