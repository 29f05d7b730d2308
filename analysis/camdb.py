"""C09: the camera database.  Reads the TOML files the build embeds and checks
every entry, mode and alias against the format the loader understands and
against the reviewed calibration table."""
import gzip
import json
import os
import tomllib

FIELDS = {'make': str, 'model': str, 'mode': str, 'clean_make': str, 'clean_model': str, 'whitepoint': int, 'blackpoint': int,
          'blackareah': list, 'blackareav': list, 'color_matrix': list, 'crops': list, 'color_pattern': str, 'bps': int,
          'wb_offset': int, 'filesize': int, 'raw_width': int, 'raw_height': int, 'hints': list}
META = {'modes', 'model_aliases'}
SIZES = {0: (0, 0), 4: (2, 2), 36: (6, 6), 16: (2, 8), 144: (12, 12)}
DEFAULT = {'make': '', 'model': '', 'mode': '', 'clean_make': '', 'clean_model': '', 'whitepoint': 0, 'blackpoint': 0,
           'blackareah': [0, 0], 'blackareav': [0, 0], 'color_matrix': [0] * 12, 'crops': [0, 0, 0, 0], 'color_pattern': '',
           'bps': 0, 'wb_offset': 0, 'filesize': 0, 'raw_width': 0, 'raw_height': 0, 'hints': []}


def files(repo):
    root = os.path.join(repo, 'data', 'cameras')
    out = []
    for d, _, fs in os.walk(root):
        if d == root:
            continue
        for f in fs:
            if f.endswith('.toml'):
                out.append(os.path.join(d, f))
    return sorted(out)


def load(repo):
    """returns (list of (key, resolved entry, file), problems)"""
    cams, bad = [], []
    for f in files(repo):
        rel = os.path.relpath(f, repo)
        try:
            # as the build script joins the files
            t = tomllib.loads('[[cameras]]\n' + open(f, encoding='utf-8').read() + '\n')
            extra = [k for k in t if k != 'cameras']
            if extra or len(t['cameras']) != 1:
                bad.append((rel, 'defines %s outside its camera' % (extra or 'more than one camera')))
            t = t['cameras'][0]
        except Exception as e:
            bad.append((rel, 'not valid TOML: %s' % e))
            continue
        validate(t, rel, bad, True)
        modes = [t]
        for m in t.get('modes', []):
            if isinstance(m, dict):
                validate(m, rel, bad, False)
                modes.append(m)
        names = [(t.get('model', ''), t.get('clean_model', ''))]
        for a in t.get('model_aliases', []):
            if not (isinstance(a, list) and len(a) == 2 and all(isinstance(x, str) for x in a)):
                bad.append((rel, 'model alias is not a pair of names: %r' % (a,)))
                continue
            names.append(tuple(a))
        base = {k: list(v) if isinstance(v, list) else v for k, v in DEFAULT.items()}
        apply(base, t)
        for mo, cl in names:
            for m in modes:
                c = {k: list(v) if isinstance(v, list) else v for k, v in base.items()}
                apply(c, m)
                c['model'], c['clean_model'] = mo, cl
                cams.append(((c['make'], c['model'], c['mode']), c, rel))
    return cams, bad


def apply(c, t):
    for k, v in t.items():
        if k == 'color_matrix' and isinstance(v, list):
            c[k] = v + c[k][len(v):]
        elif k == 'crops' and isinstance(v, list):
            c[k] = v + c[k][len(v):]
        elif k in FIELDS:
            c[k] = v


def validate(t, rel, bad, base):
    for k, v in t.items():
        if k in META:
            continue
        if k not in FIELDS:
            bad.append((rel, 'unknown key %s' % k))
            continue
        if not isinstance(v, FIELDS[k]) or isinstance(v, bool):
            bad.append((rel, '%s has the wrong type' % k))
            continue
        if k in ('whitepoint', 'blackpoint') and not 0 <= v <= 65535:
            bad.append((rel, '%s does not fit 16 bits' % k))
        if k in ('bps', 'wb_offset', 'filesize', 'raw_width', 'raw_height') and v < 0:
            bad.append((rel, '%s is negative' % k))
        if k in ('blackareah', 'blackareav') and (len(v) != 2 or not all(isinstance(x, int) and x >= 0 for x in v)):
            bad.append((rel, '%s is not [start, length]' % k))
        if k == 'crops' and (len(v) != 4 or not all(isinstance(x, int) and x >= 0 for x in v)):
            bad.append((rel, 'crops is not four sizes'))
        if k == 'color_matrix' and (len(v) not in (9, 12) or not all(isinstance(x, int) for x in v)):
            bad.append((rel, 'color_matrix is not 3x3 or 4x3 integers'))
        if k == 'color_pattern' and (len(v) not in SIZES or set(v) - set('RGBEMY')):
            bad.append((rel, 'color_pattern %r is not a pattern the loader knows' % v))
        if k == 'hints' and not all(isinstance(x, str) for x in v):
            bad.append((rel, 'hints are not strings'))
    if base:
        for k in ('make', 'model', 'clean_make', 'clean_model', 'whitepoint', 'blackpoint', 'color_matrix', 'color_pattern'):
            if k not in t:
                if k in ('whitepoint', 'blackpoint') and any(k in m for m in t.get('modes', [])):
                    continue
                bad.append((rel, 'no %s' % k))


def check(repo, spec):
    """returns (violations [(where, what)], counts)"""
    cams, vs = load(repo)
    seen, sizes, dups = {}, {}, []
    for key, c, rel in cams:
        if key in seen and canon(seen[key][0]) != canon(c):
            dups.append('"%s" "%s" mode "%s": %s, then %s' % (key + (seen[key][1], rel)))
        seen[key] = (c, rel)
        if c['filesize'] > 0:
            o = sizes.get(c['filesize'])
            if o and o[0] != key[:2]:
                vs.append((rel, 'file size %d is also that of "%s" "%s"' % ((c['filesize'],) + o[0])))
            sizes[c['filesize']] = (key[:2], rel)
            if c['raw_width'] <= 0 or c['raw_height'] <= 0:
                vs.append((rel, 'camera known by file size has no dimensions'))
    hints = set(spec['hints'])
    for key, c, rel in cams:
        for h in c['hints']:
            if h not in hints:
                vs.append((rel, 'hint %r is not one any decoder acts on' % h))
        if c['whitepoint'] and c['blackpoint'] >= c['whitepoint']:
            if '|'.join(key) not in spec['table'] or spec['table']['|'.join(key)] != canon(c):
                vs.append((rel, 'black level %d is not below white level %d' % (c['blackpoint'], c['whitepoint'])))
    matched = 0
    for k, want in spec['table'].items():
        key = tuple(k.split('|'))
        if key not in seen:
            vs.append(('data/cameras', 'camera "%s" "%s" mode "%s" is gone' % key))
            continue
        c, rel = seen[key]
        got = canon(c)
        if got == want:
            matched += 1
        else:
            for f, a, b in zip(sorted(FIELDS), want, got):
                if a != b:
                    vs.append((rel, '%s of "%s" "%s" mode "%s" is %s, reviewed as %s' % ((f,) + key + (b, a))))
    return vs, {'files': len(files(repo)), 'entries': len(cams), 'reviewed': len(spec['table']), 'matched': matched, 'later_file_wins': dups,
                'new_entries': len([k for k in seen if '|'.join(k) not in spec['table']])}


def canon(c):
    return [c[f] for f in sorted(FIELDS)]


if __name__ == '__main__':
    import sys
    cams, bad = load(sys.argv[1])
    print(len(cams), bad)
    hints = sorted({h for k, c, r in cams for h in c['hints']})
    assert not any('|' in x for k, c, r in cams for x in k)
    t = {'|'.join(k): canon(c) for k, c, r in cams}
    print(len(t))
    with open(sys.argv[2], 'w') as f:
        f.write('{"hints": %s,\n"fields": %s,\n"table": {\n' % (json.dumps(hints), json.dumps(sorted(FIELDS))))
        f.write(',\n'.join('%s: %s' % (json.dumps(k), json.dumps(v)) for k, v in sorted(t.items())))
        f.write('\n}}\n')
