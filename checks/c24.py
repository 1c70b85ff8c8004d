"""C24: a file name means the same file to every call. Every character and
every short combination as a name, written, listed, opened, replaced."""
import itertools
import os

LEVEL = 'exploration'
TECHNIQUE = 'bounded exhaustive enumeration of file names on the real code, with look-alike neighbours, against the directory as Python and the system show it'
NOTE = 'Complete within the stated characters and lengths, for the file system encoding which Python uses here (UTF-8).'
RULE = 'a case is one name, written, listed, opened and replaced; non-trivial when the name has a character outside ASCII or a special meaning'
BOUNDS = {
    'quick': 'all 1,114,111 single characters as names; all strings of up to 3 of 21 characters; every length of names to 300 of characters of 1-4 bytes; in 4 directories',
    'thorough': 'all strings of up to 4 of 21 characters, all single characters between letters',
}
NEEDS = ['plain', 'asan']
NPROC = 8

CHARS = ['a', 'A', '.', ' ', '-', '~', '%', 'X', '\n', '\\', '\x01', '\x7f', '\0', '/', '\x80', '\xe9', '\xff', '\u0144', '\u20ac', '\U0001F600', '\udcff']


def tasks(tier):
    n = 24
    t = [('chars', dict(part=i, of=n)) for i in range(n)]
    k = 3 if tier == 'quick' else 4
    m = 4 if tier == 'quick' else 24
    t += [('strings', dict(n=k, part=i, of=m)) for i in range(m)]
    t += [('strings', dict(variant='asan', n=2, part=0, of=1)), ('lengths', dict(variant='asan')), ('lengths', {})]
    if tier == 'thorough':
        t += [('chars', dict(part=i, of=n, around=1)) for i in range(n)]
    return t


def listing():
    out = []
    for d, ds, fs in os.walk(b'.'):
        out += [os.path.normpath(os.path.join(d, f)) for f in fs]
    return sorted(out)


def fresh():
    import shutil
    import tempfile
    from checks import lib
    d = tempfile.mkdtemp(dir=lib.tmpdir())
    os.chdir(d)
    return d


def neighbours(n):
    """names which a wrong encoding or a cut would hit"""
    out = set()
    for e in ('latin-1', 'utf-8', 'cp1252', 'utf-16-le'):
        for r in ('strict', 'replace', 'ignore'):
            try:
                out.add(n.encode(e, r).replace(b'/', b'')[:200].split(b'\0')[0])
            except UnicodeError:
                pass
    out.add(n.split('\0')[0].encode('utf-8', 'ignore').replace(b'/', b'')[:200])
    out -= {b'', b'.', b'..'}
    return out


def one(rec, n, blob, full):
    from checks import lib
    import pointless as P
    try:
        b = os.fsencode(n)
        legal = b'\0' not in b
    except UnicodeError:
        legal = False
    top = legal and b'/' not in b
    places = []
    if full:
        for x in neighbours(n):
            if not (top and x == b) and not os.path.isdir(x):
                with open(x, 'wb') as f:
                    f.write(b'other')
    before = listing()
    # what does the system say of such a name?
    possible = False
    if legal:
        try:
            with open(n, 'xb'):
                pass
            os.unlink(n)
            possible = True
        except FileExistsError:
            possible = os.path.isfile(n)
        except OSError:
            pass
    for round in range(2 if full else 1):
        e, r = lib.raises(P.serialize, [round, 'v'], n)
        now = listing()
        if e:
            if now != before and round == 0:
                rec.violation('refused but the directory changed', '%s: %r' % (ascii(n), now))
            if possible and max(len(x) for x in b.split(b'/')) <= 240:
                rec.violation('a legal name cannot be written', '%s: %r' % (ascii(n), r))
            break
        if not possible:
            rec.violation('an impossible name is written', '%s: %r' % (ascii(n), now))
            break
        if sorted(set(before) | {os.path.relpath(b)}) != now:
            rec.violation('written under another name', '%s: %r' % (ascii(n), now))
            break
        with open(n, 'rb') as f:
            c = f.read()
        if c != blob[round]:
            rec.violation('wrong content under the name', ascii(n))
    if full:
        for x in before:
            with open(x, 'rb') as f:
                if f.read() != b'other' and os.path.normpath(x) != (os.path.relpath(b) if legal else None):
                    rec.violation('another file was changed', '%s: %r' % (ascii(n), x))
    if possible and not e:
        e, r = lib.raises(P.Pointless, n)
        if e:
            rec.violation('written name cannot be opened', '%s: %r' % (ascii(n), r))
        elif r.GetRoot()[1] != 'v' or r.GetRoot()[0] != round:
            rec.violation('another file was opened', ascii(n))
        elif full and r.GetINode() != os.stat(n).st_ino:
            rec.violation('another file was opened', ascii(n))
        r = None
        os.unlink(n)
    if full:
        # nothing of that name: must not find the neighbours
        e, r = lib.raises(P.Pointless, n)
        if not e:
            rec.violation('a name without file was opened', ascii(n))
        if possible:
            with open(n, 'wb') as f:
                f.write(blob[0])
            e, r = lib.raises(P.Pointless, n)
            if e or r.GetRoot()[0] != 0:
                rec.violation('a file which Python wrote cannot be opened', ascii(n))
            r = None
            os.unlink(n)
    for x in listing():
        os.unlink(x)
    if full:
        rec.nontrivial()


def run(name, args, rec):
    import sys
    from checks import lib
    import pointless as P
    home = fresh()
    blob = [bytes(P.serialize_to_bytearray([i, 'v'])) for i in (0, 1)]
    # the writer mentions its temporary file when it cannot create it
    null = os.open('/dev/null', os.O_WRONLY)
    if args.get('variant') != 'asan':
        os.dup2(null, 2)
    if name == 'chars':
        for c in range(args['part'], 0x110000, args['of']):
            n = chr(c) if not args.get('around') else 'a%cb' % c
            if rec.begin((n, )):
                one(rec, n, blob, c < 0x300 or c % 0x100 < 2 or 0xd780 <= c < 0xe020)
    elif name == 'strings':
        i = 0
        for k in range(args['n'] + 1):
            for t in itertools.product(CHARS, repeat=k):
                i += 1
                n = ''.join(t)
                if i % args['of'] == args['part'] and n.strip('/') == n and '..' not in n.split('/')[:-1] and rec.begin((n, )):
                    one(rec, n, blob, True)
    elif name == 'lengths':
        for d in ('', 'd/', './', 'd\xe9/../', os.path.join(home, 'd\u0144') + '/'):
            for c in ('x', '\xe9', '\u20ac', '\U0001F600', '\udcff'):
                for k in range(1, 301):
                    if not rec.begin((d.replace(home, ''), c, k)):
                        continue
                    if d.strip('./'):
                        os.makedirs(d.split('/..')[0], exist_ok=True)
                    one(rec, d + c * k, blob, True)
    os.chdir('/')
