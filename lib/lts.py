"""Turns the transition system printed by TLC (spec/ZDocExport.tla) into the replayer's format."""
import re

_unq = re.compile(r'\\(.)')
_item = re.compile(r'"((?:[^"\\]|\\.)*)"')


def convert(lines, out_path, nh, na):
    """lines: TLC's output lines.  Returns (states, edges)."""
    texts, raw = [], {}
    for line in lines:
        line = line.strip()
        if line.startswith('"#TEXT '):
            texts.append(line[7:-1])
        elif line.startswith('"@'):
            s = _unq.sub(r'\1', line[1:-1])
            code, _, rest = s[1:].partition(' ')
            raw[code] = rest
    init = 'n0' * nh + '+' + '-' * (na - 1) + '|'
    if init not in raw:
        raise ValueError('no initial state in the export')
    ids = {init: 0}
    for c in sorted(raw):
        ids.setdefault(c, len(ids))
    calls, edges = {}, 0
    with open(out_path, 'w') as f:
        f.write('P %d %d\n' % (nh, na))
        for t in texts:
            f.write('T %s\n' % t)
        for c, i in ids.items():
            f.write('S %d %s\n' % (i, c))
        body = []
        for c, i in ids.items():
            seen = set()
            for m in _item.finditer(raw[c]):
                e = _unq.sub(r'\1', m.group(1))
                call, _, res = e.rpartition(' = ')
                r, _, to = res.partition(' ')
                call = call.replace('"', '')
                if (call, r, to) in seen:
                    continue
                seen.add((call, r, to))
                if to not in ids:
                    raise ValueError('edge to a state that was not exported: ' + to)
                k = calls.get(call)
                if k is None:
                    k = calls[call] = len(calls)
                    body.append('C %d %s\n' % (k, call))
                body.append('E %d %d %s %d\n' % (i, k, r, ids[to]))
                edges += 1
        f.writelines(body)
    return len(ids), edges
