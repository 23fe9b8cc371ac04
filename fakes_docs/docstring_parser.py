"""Stand-in for docstring_parser (not installed here): Google-style docstrings."""
import re
import textwrap


class _Item:
    def __init__(self, **kw):
        self.__dict__.update(kw)


class Docstring:
    def __init__(self):
        self.short_description = None
        self.long_description = None
        self.params = []
        self.returns = None
        self.raises = []
        self.meta = []


def parse(text, style=None):
    d = Docstring()
    if not text:
        return d
    lines = textwrap.dedent(text).strip().split("\n")
    sections, current, body = {}, None, []
    for line in lines:
        m = re.match(r"^(Args|Returns|Raises|Yields):\s*$", line.strip())
        if m and not line.startswith("  "):
            current = m.group(1)
            sections[current] = []
        elif current:
            sections[current].append(line)
        else:
            body.append(line)
    text = "\n".join(body).strip()
    if text:
        first, _, rest = text.partition("\n")
        d.short_description = first
        d.long_description = rest.strip() or None
    for line in sections.get("Args", []):
        m = re.match(r"^\s+(\w+)(?:\s*\(([^)]*)\))?:\s*(.*)$", line)
        if m:
            d.params.append(_Item(arg_name=m.group(1), type_name=m.group(2), description=m.group(3)))
        elif d.params and line.strip():
            d.params[-1].description += "\n" + line.strip()
    ret = "\n".join(x.strip() for x in sections.get("Returns", [])).strip()
    if ret:
        m = re.match(r"^(\w+): (.*)$", ret, re.S)
        d.returns = _Item(type_name=m.group(1) if m else None, description=m.group(2) if m else ret)
    return d
