"""Names of the files of a parallel run."""
PROPERTY = 'P16'
MODULES = ('utils',)
BOUNDS = ('stems of 0-6, 13, 19 and 26 symbolic printable ASCII characters, symbolic ids of 5 digits, time stamps of 12 digits, extensions of 3 characters; '
          'names where any single place of the id or the time stamp may be a non-digit; lists of 3 files with symbolic time stamps')
OUTSIDE = 'other lengths of stems; characters outside of printable ASCII; other separators than in the names the tools write'
ASSUMPTIONS = []
STUBS = ['strings with symbolic characters: slicing, comparison, digits, numbers and regular expressions are encoded']
LABELS = ['parts', 'accepted', 'rejected', 'stamp', 'no stamp', 'groups']


def cases(tier):
    ls = (0, 1, 3, 19) if tier == 'quick' else (0, 1, 2, 3, 4, 5, 6, 13, 19, 26)
    out = [('parts/%d' % n, dict(k='parts', n=n)) for n in ls]
    out += [('bad/%d' % n, dict(k='bad', n=n)) for n in ((1,) if tier == 'quick' else (0, 1, 2))]
    out += [('accept/%d' % n, dict(k='accept', n=n)) for n in ls]
    out += [('stamp/%d' % n, dict(k='stamp', n=n)) for n in ls]
    out += [('short/%d' % n, dict(k='short', n=n)) for n in ((0, 5, 12, 13, 14) if tier == 'quick' else range(0, 20))]
    out += [('group', dict(k='group', n=3 if tier == 'quick' else 4))]
    return out


def run(h, k, n):
    utils = h.mod('utils')
    dig = lambda name, m: h.string(name, m, 48, 57)
    if k in ('parts', 'accept', 'bad'):
        stem = h.string('stem', n)
        m, t = dig('m', 5), dig('t', 12)
        ext = h.string('ext', 3)
        if k == 'parts':
            s, md, td, e = utils.dummy_split_filename(stem + '_' + m + '_' + t + '.' + ext)
            h.check(h.str_eq(s, stem), 'parts')
            h.check(h.str_eq(e, ext), 'parts')
            h.check(md == h.str_int(m), 'parts')
            h.check(td == h.str_int(t), 'parts')
        elif k == 'accept':
            other = h.string('other', n)
            for e, f in (('cry', utils.is_filename_correct_crys_cry_file), ('txt', utils.is_filename_correct_crys_txt_file)):
                h.check(bool(f(stem + '_' + m + '_' + t + '.' + e, stem)), 'accepted')
                same = h.str_eq(ext, e)
                got = bool(f(stem + '_' + m + '_' + t + '.' + ext, stem))
                h.check(h.iff(got, same), 'accepted')
                got = bool(f(stem + '_' + m + '_' + t + '.' + e, other))
                h.check(h.iff(got, h.str_eq(stem, other)), 'rejected')
                h.check(not f(stem + '_' + m + '_' + t + '.' + e, stem + 'x'), 'rejected')
                h.check(not f('x' + stem + '_' + m + '_' + t + '.' + e, stem), 'rejected')
        else:
            place = h.choice('place', list(range(17)))
            c = h.string('bad', 1)
            h.assume(h.neg(h.is_digits(c)))
            if place < 5:
                m = m[:place] + c + m[place + 1:]
            else:
                t = t[:place - 5] + c + t[place - 4:]
            for e, f in (('cry', utils.is_filename_correct_crys_cry_file), ('txt', utils.is_filename_correct_crys_txt_file)):
                h.check(not f(stem + '_' + m + '_' + t + '.' + e, stem), 'rejected')
            s, md, td, e = utils.dummy_split_filename(stem + '_' + m + '_' + t + '.cry')
            h.check((md is None) == (place < 5) and (td is None) == (place >= 5), 'rejected')
    elif k == 'stamp':
        stem, t = h.string('stem', n), dig('t', 12)
        name = stem + '_' + t
        h.check(bool(utils.has_filename_timestamp(name)), 'stamp')
        a, b = utils.get_filename_and_timestamp_pair(name)
        h.check(h.str_eq(a, stem), 'stamp')
        h.check(h.str_eq(b, t), 'stamp')
    elif k == 'short':
        # any name: has a time stamp exactly when it ends with _ and 12 digits
        s = h.string('s', n)
        want = False
        if n >= 13:
            want = h.both(h.str_eq(s[n - 13:n - 12], '_'), h.is_digits(s[n - 12:]))
        got = bool(utils.has_filename_timestamp(s))
        h.check(h.iff(got, want), 'no stamp')
        if not got:
            a, b = utils.get_filename_and_timestamp_pair(s)
            h.check(h.str_eq(a, s), 'no stamp')
            h.check(h.str_eq(b, '000000000000'), 'no stamp')
    else:
        ts = [h.choice('ts%d' % i, ['111222333444', '000000000001', '111222333445']) for i in range(n)]
        # one place of each stamp is symbolic
        ts = [t[:4] + dig('d%d' % i, 1) + t[5:] for i, t in enumerate(ts)]
        fs = ['g_%05d_' % i + t + '.txt' for i, t in enumerate(ts)]
        d = utils.group_txt_files_by_timestamps(fs)
        h.check(sum(len(v) for v in d.values()) == n, 'groups')
        for key in d:
            v = d[key]
            h.check(len(v) > 0, 'groups')
            for f in v:
                i = [j for j in range(n) if f is fs[j]]
                h.check(len(i) == 1, 'groups')
                h.check(h.str_eq(key, ts[i[0]]), 'groups')
        keys = list(d)
        for i in range(len(keys)):
            for j in range(i):
                h.check(h.neg(h.str_eq(keys[i], keys[j])), 'groups')
