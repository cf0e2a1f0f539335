"""Stand-ins for libraries that are not installed here: toolbox, odintxt and
delphin.itsdb, as far as xigt uses their interfaces."""
import os
import sys
import types


class ToolboxError(Exception):
    pass


class ToolboxWarning(Warning):
    pass


def read_toolbox_file(lines):
    """Yield (marker, text or None), continuation lines appended."""
    cur = None
    for line in lines:
        line = line.rstrip('\r\n')
        if line.startswith('\\'):
            if cur:
                yield cur
            head = line.split(None, 1)
            mkr = head[0]
            rest = line[len(mkr) + 1:]
            cur = (mkr, rest if rest.strip() else None)
        elif cur and line.strip():
            cur = (cur[0], (cur[1] or '') + '\n' + line)
    if cur:
        yield cur


def records(pairs, record_markers):
    """Yield (context, data) for what follows each record marker."""
    context = {m: None for m in record_markers}
    data, started = [], False
    for mkr, text in pairs:
        if mkr in context:
            if started:
                yield dict(context), iter(data)
            data = []
            context[mkr] = text.strip() if text else None
            for m in record_markers[record_markers.index(mkr) + 1:]:
                context[m] = None
        else:
            data.append((mkr, text))
        started = True
    if started:
        yield dict(context), iter(data)


def normalize_record(pairs, aligned_fields, strip=True):
    """Join repeated markers; aligned ones are padded to equal widths, block
    by block."""
    pairs = list(pairs)
    order = []
    for m, t in pairs:
        if m not in order:
            order.append(m)
    n = max([sum(1 for m, _ in pairs if m == o) for o in order
             if o in aligned_fields], default=0)
    lines = {o: [t for m, t in pairs if m == o] for o in order}
    widths = []
    for k in range(n):
        widths.append(max(len(l[k] or '') for o, l in lines.items()
                          if o in aligned_fields and k < len(l)))
    out = []
    for o in order:
        l = lines[o]
        if o in aligned_fields and len(l) > 1:
            t = ' '.join((x or '').ljust(widths[k]) for k, x in enumerate(l))
        else:
            t = ' '.join(x for x in l if x)
        out.append((o, t if t.strip() else None))
    return out


def _positions(line):
    out, i = [], 0
    while i < len(line):
        if line[i].isspace():
            i += 1
            continue
        j = i
        while j < len(line) and not line[j].isspace():
            j += 1
        out.append((i, line[i:j]))
        i = j
    return out


ERRORS = []


def align_fields(pairs, alignments=None, errors='strict'):
    """Yield (marker, [(target token, [tokens])...]) by column positions."""
    ERRORS.append(errors)
    alignments = alignments or {}
    lines = {}
    targets = set(alignments.values())
    for mkr, text in pairs:
        if text is not None and text.strip() == '!error':
            raise ToolboxError('cannot align ' + mkr)
        if text is not None and text.strip() == '!warning':
            import warnings
            warnings.warn('odd line ' + mkr, ToolboxWarning)
        lines[mkr] = text
        tgt = alignments.get(mkr)
        if text is None:
            yield mkr, [(None, None)]
        elif tgt is None or lines.get(tgt) is None:
            toks = [t for _, t in _positions(text)] if mkr in targets or tgt \
                else [text.strip()]
            yield mkr, [(text, toks)]
        else:
            ts, ss = _positions(lines[tgt]), _positions(text)
            out = []
            for k, (p, tok) in enumerate(ts):
                lo = 0 if k == 0 else p
                hi = ts[k + 1][0] if k + 1 < len(ts) else float('inf')
                out.append((tok, [s for q, s in ss if lo <= q < hi]))
            yield mkr, out


def odin_blocks(fh):
    """Blocks of a simplified ODIN text: 'key: value' lines, then
    'line=N tag=T:content' lines, separated by blank lines."""
    block = None
    for line in fh:
        line = line.rstrip('\n')
        if not line.strip():
            if block:
                yield block
            block = None
            continue
        if block is None:
            block = {'lines': [], 'header_lines': []}
        if line.startswith('line='):
            head, content = line.split(':', 1)
            n, tag = head.split(' ', 1)
            block['lines'].append({'line': n[5:], 'tag': tag[4:], 'content': content})
        else:
            key, val = line.split(': ', 1)
            block[key] = val
            block['header_lines'].append(line)
    if block:
        yield block


MADE = []


def make_skeleton(path, relations, rows):
    """Records what it is given."""
    MADE.append((path, relations, [dict(r) for r in rows]))


def install():
    tb = types.ModuleType('toolbox')
    for f in (ToolboxError, ToolboxWarning, read_toolbox_file, records, normalize_record,
              align_fields):
        setattr(tb, f.__name__, f)
    od = types.ModuleType('odintxt')
    od.odin_blocks = odin_blocks
    de = types.ModuleType('delphin')
    it = types.ModuleType('delphin.itsdb')
    it.make_skeleton = make_skeleton
    de.itsdb = it
    sys.modules.update({'toolbox': tb, 'odintxt': od, 'delphin': de, 'delphin.itsdb': it})
