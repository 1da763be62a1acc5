"""Independent reference decoders and generators for PGM, PFM and Y4M files.

ref(fmt, data) -> None (unusual text whose meaning is not fixed here), or
  dict(open='invalid') or dict(open=(w, h), frames=[array or None...], end='end'|'error'|'either', lax=bool)
A frame None is one whose data is short ('error').
"""
import re
import struct
import numpy as np

F32 = np.float32
WS = b' \t\n\v\f\r'
UNKNOWN = None


class Unknown(Exception):
    pass


class Invalid(Exception):
    pass


def skip_ws(b, i):
    while i < len(b) and b[i:i + 1] in (b' ', b'\t', b'\n', b'\v', b'\f', b'\r'):
        i += 1
    return i


def number(b, i):
    i = skip_ws(b, i)
    m = re.compile(rb'[+-]?\d+').match(b, i)
    if not m:
        raise Invalid()
    t = m.group()
    if t[:1] == b'-' or len(t) > 19:
        raise Unknown()
    return int(t), m.end()


def real(b, i):
    i = skip_ws(b, i)
    m = re.compile(rb'[+-]?(\d+\.?\d*|\.\d+)([eE][+-]?\d+)?').match(b, i)
    nxt = b[i:i + 1]
    if not m:
        if nxt in (b'+', b'-', b'.') or nxt.lower() in (b'i', b'n'):
            raise Unknown()
        raise Invalid()
    if b[m.end():m.end() + 1].lower() in (b'e', b'x', b'.'):
        raise Unknown()
    return float(m.group()), m.end()


def comments(b, i):
    while b[i:i + 1] == b'#':
        j = b.find(b'\n', i)
        if j < 0:
            raise Invalid()
        i = j + 1
    if i >= len(b):
        raise Invalid()
    return i


def space(b, i):
    if i >= len(b) or not b[i:i + 1].isspace():
        raise Invalid()
    return i + 1


def ref(fmt, b, pipe=False):
    try:
        return dict(pgm=ref_pgm, pfm=ref_pfm, y4m=ref_y4m)[fmt](b, pipe)
    except Unknown:
        return UNKNOWN
    except Invalid:
        return dict(open='invalid')


def ref_pgm(b, pipe):
    if b[:2] != b'P5':
        raise Invalid()
    i = comments(b, skip_ws(b, 2))
    w, i = number(b, i)
    h, i = number(b, i)
    d, i = number(b, i)
    i = space(b, i)
    if not 1 <= d <= 255:
        raise Invalid()
    r = dict(open=(w, h), frames=[], end='end')
    if 0 < w * h <= 1 << 24:
        px = np.frombuffer(b[i:i + w * h], np.uint8)
        if px.size < w * h:
            r.update(frames=[None], end='error')
        else:
            r['frames'] = [(px.astype(F32) / F32(d)).reshape(h, w)]
    elif w * h:
        r.update(frames=[None], end='error')
    return r


def pfm_header(b, i):
    if b[i:i + 1] != b'P' or b[i + 1:i + 2] not in (b'f', b'F'):
        raise Invalid()
    f = b[i + 1:i + 2]
    i = comments(b, skip_ws(b, i + 2))
    w, i = number(b, i)
    h, i = number(b, i)
    s, i = real(b, i)
    return f, w, h, s, space(b, i)


def ref_pfm(b, pipe):
    f, w, h, s, i = pfm_header(b, 0)
    r = dict(open=(w, h), frames=[], end='end')
    W, H = w, h
    if w * h == 0:
        return r
    while True:
        n = w * h * 4 * (3 if f == b'F' else 1)
        if len(b) - i < n:
            r['frames'].append(None)
            r['end'] = 'error'
            return r
        a = np.frombuffer(b[i:i + n], '<f4' if s < 0 else '>f4').astype(F32)
        i += n
        if f == b'F':
            a = a.reshape(-1, 3)
            with np.errstate(all='ignore'):
                a = ((a[:, 0] + a[:, 1]).astype(F32) + a[:, 2]).astype(F32) / F32(3)
        r['frames'].append(a.reshape(h, w)[::-1])
        if i >= len(b):
            return r
        try:
            f, w, h, s, i = pfm_header(b, i)
            if (w, h) != (W, H):
                raise Invalid()
        except Invalid:
            r['frames'].append(None)
            r['end'] = 'error'
            return r


def y4m_csp(c):
    """(kind, depth) of a supported colorspace"""
    if len(c) > 9:
        raise Unknown()
    m = re.fullmatch(rb'mono(\d*)', c)
    if m:
        k, d = 'mono', m.group(1)
    elif c == b'444alpha':
        k, d = '444a', b''
    elif c in (b'420jpeg', b'420mpeg2', b'420paldv'):
        k, d = '420', b''
    else:
        m = re.fullmatch(rb'(420|411|422|444)(?:p(\d+))?', c)
        if not m:
            if c[:3] in (b'420', b'411', b'422', b'444') or c[:4] == b'mono':
                raise Unknown()
            raise Invalid()
        k, d = m.group(1).decode(), m.group(2) or b''
    d = int(d) if d else 8
    if not 8 <= d <= 16:
        raise Invalid()
    return k, d


def chroma(k, w, h):
    return {'mono': 0, '420': 2 * ((w + 1) // 2) * ((h + 1) // 2), '411': 2 * ((w + 3) // 4) * h, '422': 2 * ((w + 1) // 2) * h, '444': 2 * w * h, '444a': 3 * w * h}[k]


def ref_y4m(b, pipe):
    if b[:10] != b'YUV4MPEG2 ':
        raise Invalid()
    j = b.find(b'\n', 10)
    hd = b[10:] if j < 0 else b[10:j]
    w = h = 0
    c = b'420jpeg'
    for t in hd.split(b' '):
        if not t:
            continue
        if any(x in t for x in (b'\t', b'\v', b'\f', b'\r')):
            raise Unknown()
        if t[:1] in (b'W', b'H'):
            m = re.fullmatch(rb'\d+', t[1:])
            if not m:
                if len(t) > 1 and not re.match(rb'[+\-\d]', t[1:]):
                    raise Invalid()
                raise Unknown()
            if len(t) > 20:
                raise Unknown()
            if t[:1] == b'W':
                w = int(t[1:])
            else:
                h = int(t[1:])
        elif t[:1] == b'C':
            if len(t) == 1:
                raise Unknown()
            if len(t) > 10:
                raise Unknown()
            c = t[1:]
        elif len(t) == 1:
            raise Unknown()
    if j < 0:
        raise Invalid()
    if w == 0 or h == 0:
        raise Invalid()
    k, d = y4m_csp(c)
    bw = 2 if d > 8 else 1
    r = dict(open=(w, h), frames=[], end='end', lax=False)
    ys, us = w * h * bw, chroma(k, w, h) * bw
    i = j + 1
    if ys > 1 << 26:
        r.update(frames=[None], end='either')
        return r
    while i < len(b):
        if b[i:i + 5] != b'FRAME':
            r['frames'].append(None)
            r['end'] = 'error'
            return r
        n = b.find(b'\n', i + 5)
        if n < 0:
            r['frames'].append(None)
            r['end'] = 'error'
            return r
        i = n + 1
        if len(b) - i < ys:
            r['frames'].append(None)
            r['end'] = 'error'
            return r
        a = np.frombuffer(b[i:i + ys], '<u2' if bw == 2 else np.uint8).astype(F32) / F32(2 ** d - 1)
        r['frames'].append(a.reshape(h, w))
        i += ys
        if len(b) - i < us:
            # short chroma planes of the last frame: either
            r['end'] = 'either'
            r['lax'] = True
            return r
        i += us
    return r


# ---------------------------------------------------------------- generators
def sep(r):
    return r.choice([b' ', b' ', b'\n', b'\n', b'\t', b'  ', b'\r\n', b'\n\n', b' \n'])


def cmts(r):
    return b''.join(b'#' + r.choice([b'', b' a comment', b'#', b' 12 34 255', b'x' * 300, b'P5']) + b'\n' for _ in range(r.choice([0, 0, 0, 1, 1, 2, 3])))


def size(r):
    return r.choice([1, 1, 2, 2, 3, 4, 5, 7, 8, 9, 13, 16, 17, 31]), r.choice([1, 1, 2, 3, 4, 5, 8, 11, 16])


def gen_pgm(r):
    w, h = size(r)
    d = r.choice([255, 255, 255, 1, 2, 100, 127, 128, 254, r.randrange(1, 256)])
    px = bytes(r.randrange(256) for _ in range(w * h))
    return b'P5' + sep(r) + cmts(r) + b'%d%s%d%s%d' % (w, sep(r), h, sep(r), d) + r.choice([b'\n', b'\n', b' ', b'\t', b'\r', b'\v', b'\f']) + px


def gen_pfm(r):
    w, h = size(r)
    out = b''
    n = r.choice([1, 1, 2, 3, 4])
    for _ in range(n):
        f = r.choice([b'f', b'F'])
        s = r.choice([b'-1.0', b'1.0', b'-1', b'1', b'-0.5', b'2.5', b'-1e3', b'0.000001', b'-.5', b'1.'])
        v = [r.choice([r.random(), r.uniform(-1e6, 1e6), 0.0, 1.0, 1e-40, 3e38]) for _ in range(w * h * (3 if f == b'F' else 1))]
        out += b'P' + f + sep(r) + cmts(r) + b'%d%s%d%s%s' % (w, sep(r), h, sep(r), s) + r.choice([b'\n', b'\n', b' ', b'\t'])
        out += struct.pack(('<' if s[:1] == b'-' else '>') + '%df' % len(v), *v)
    return out


CSP = [b'mono', b'mono8', b'mono9', b'mono10', b'mono12', b'mono16', b'420jpeg', b'420mpeg2', b'420paldv', b'420', b'420p9', b'420p10', b'420p16', b'411', b'422', b'422p10', b'422p14', b'444', b'444p10', b'444p16', b'444alpha', b'411p12', b'420p8']


def gen_y4m(r):
    w, h = size(r)
    c = r.choice(CSP + [None])
    k, d = y4m_csp(c or b'420jpeg')
    bw = 2 if d > 8 else 1
    tags = [b'W%d' % w, b'H%d' % h] + ([b'C' + c] if c else []) + r.sample([b'F25:1', b'Ip', b'A1:1', b'XYSCSS=420JPEG', b'XCOLORRANGE=FULL', b'A0:0'], r.randrange(4))
    r.shuffle(tags)
    out = b'YUV4MPEG2 ' + r.choice([b' ', b' ', b' ', b'  ']).join(tags) + r.choice([b'', b'', b'', b' ']) + b'\n'
    for _ in range(r.choice([0, 1, 1, 2, 3, 4])):
        out += b'FRAME' + r.choice([b'', b'', b' Ip', b' XFOO=BAR Ip']) + b'\n'
        if bw == 1:
            out += bytes(r.randrange(256) for _ in range(w * h))
        else:
            out += b''.join(struct.pack('<H', r.choice([r.randrange(1 << d), r.randrange(1 << d), (1 << d) - 1, 0, 255, 256])) for _ in range(w * h))
        # chroma that would be mistaken for frames if it were skipped wrongly
        out += (b'FRAME\n' * (1 + chroma(k, w, h) * bw // 6))[:chroma(k, w, h) * bw] if r.random() < .5 else bytes(r.randrange(256) for _ in range(chroma(k, w, h) * bw))
    return out


GEN = dict(pgm=gen_pgm, pfm=gen_pfm, y4m=gen_y4m)


def mutate(r, b, fmt):
    k = r.randrange(9)
    hd = min(len(b), 60)
    if not b:
        return b
    if k == 0:
        return b[:r.randrange(len(b) + 1)]
    if k == 1:
        return b[:len(b) - r.choice([1, 1, 2, 3, 4, 5, 8])] if len(b) > 8 else b[:1]
    if k == 2:
        return b + r.choice([b'\0', b'P', b'FRAME', b'FRAM', b'F', b'x' * 5, b'Pf\n1 1 1\n', b'P5'])
    if k == 3:
        i = r.randrange(hd)
        return b[:i] + bytes([r.randrange(256)]) + b[i + 1:]
    if k == 4:
        i = r.randrange(hd)
        return b[:i] + b[i + 1:]
    if k == 5:
        i = r.randrange(hd)
        return b[:i] + r.choice([b' ', b'#', b'0', b'9', b'\n', b'C', b'W', b'-', b'99999999999']) + b[i:]
    if k == 6:
        m = list(re.finditer(rb'\d+', b[:60]))
        if m:
            x = r.choice(m)
            return b[:x.start()] + r.choice([b'0', b'1', b'255', b'256', b'65535', b'4294967295', b'4294967296', b'4611686018427387904', b'9223372036854775807', b'18446744073709551615', b'2147483647', b'17']) + b[x.end():]
        return b
    if k == 7:
        return r.choice([b'', b'P', b'P5', b'P6' + b[2:], b'P2' + b[2:], b'p5' + b[2:], b'Pg' + b[2:], b'YUV4MPEG2', b'YUV4MPEG2\n', b'YUV4MPEG2 \n', b'#' + b, b'\n' + b])
    return mutate(r, mutate(r, b, fmt), fmt)
