"""An independent decoder of the Thrift compact protocol: bytes -> generic
structures {field id: (kind, value)}.  Integers are returned as the unsigned
64-bit two's complement value."""
import struct


class Malformed(Exception):
    pass


class _R(object):
    def __init__(self, b):
        self.b = b
        self.p = 0

    def take(self, n):
        if n < 0 or self.p + n > len(self.b):
            raise Malformed('truncated at %d' % self.p)
        r = self.b[self.p:self.p + n]
        self.p += n
        return r

    def u8(self):
        return self.take(1)[0]

    def varint(self):
        v = s = 0
        while True:
            x = self.u8()
            v |= (x & 0x7f) << s
            if not x & 0x80:
                return v
            s += 7
            if s > 70:
                raise Malformed('varint')

    def zigzag(self):
        n = self.varint()
        if n >> 64:
            raise Malformed('integer of more than 64 bits')
        v = (n >> 1) ^ -(n & 1)
        return v & (1 << 64) - 1


KIND = {1: 'bool', 2: 'bool', 3: 'byte', 4: 'i16', 5: 'i32', 6: 'i64', 7: 'double', 8: 'binary', 9: 'list',
        10: 'set', 11: 'map', 12: 'struct'}


def _value(r, t):
    if t in (4, 5, 6):
        return r.zigzag()
    if t == 3:
        return r.u8()
    if t == 7:
        # the compact protocol of this library is little endian
        return struct.unpack('<Q', r.take(8))[0]
    if t == 8:
        return r.take(r.varint())
    if t in (9, 10):
        h = r.u8()
        n = h >> 4
        et = h & 15
        if n == 15:
            n = r.varint()
        if n > len(r.b):
            raise Malformed('list size')
        if et in (1, 2):
            return [r.u8() == 1 for _ in range(n)]
        return [_value(r, et) for _ in range(n)]
    if t == 12:
        return _struct(r)
    raise Malformed('type %d' % t)


def _struct(r):
    res = {}
    fid = 0
    while True:
        h = r.u8()
        if h == 0:
            return res
        t = h & 15
        if h >> 4:
            fid += h >> 4
        else:
            z = r.varint()
            fid = (z >> 1) ^ -(z & 1)
        if t not in KIND:
            raise Malformed('field type %d' % t)
        v = (t == 1) if t in (1, 2) else _value(r, t)
        if fid in res:
            raise Malformed('duplicate field %d' % fid)
        res[fid] = (KIND[t], v)


def message(b):
    """-> dict(name, type, seqid, args); the whole input must be one message."""
    r = _R(bytes(b))
    if r.u8() != 0x82:
        raise Malformed('protocol id')
    vt = r.u8()
    if vt & 0x1f != 1:
        raise Malformed('version')
    seq = r.varint()
    name = r.take(r.varint()).decode('utf-8')
    args = _struct(r)
    if r.p != len(r.b):
        raise Malformed('%d trailing bytes' % (len(r.b) - r.p))
    return dict(name=name, type=vt >> 5, seqid=seq, args=args)


def batch_of(b):
    """The Batch structure of an emitBatch message."""
    m = message(b)
    if m['name'] != 'emitBatch' or m['type'] != 4:
        raise Malformed('not a oneway emitBatch: %r' % ((m['name'], m['type']),))
    if set(m['args']) != {1}:
        raise Malformed('arguments')
    return m['args'][1][1]
