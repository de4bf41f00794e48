"""Executable specifications of the block structure (CommonMark 0.29): plain Python."""
import re

BULLET = re.compile(r'^[-+*]')
ORDERED = re.compile(r'^([0-9]{1,9})([.)])')


def marker(rest, indent, interrupts):
    """List marker at the beginning of rest: (type, bullet, start, delimiter, width) or None."""
    if indent >= 4:
        return None
    m = re.match(BULLET, rest)
    if m:
        kind = 'bullet', m.group(), None, None
    else:
        m = re.match(ORDERED, rest)
        if not m:
            return None
        kind = 'ordered', None, int(m.group(1)), m.group(2)
        if interrupts and kind[2] != 1:
            return None
    width = len(m.group())
    after = rest[width:]
    if after[:1] not in ('', ' ', '\t'):
        return None
    if interrupts and not re.search(r'[^ \t]', after):
        return None
    return kind[0], kind[1], kind[2], kind[3], width


def fenced(content):
    """(info string before unescaping, literal) of the lines of a fenced block."""
    i = content.index('\n')
    return content[:i].strip(), content[i + 1:]


def indented(content):
    """Lines of an indented block: without blank lines at its end."""
    return re.sub(r'(?:\n *)+$', '\n', content)


def html(content):
    return re.sub(r'(?:\n *)+$', '', content)


def code(content, is_fenced):
    if is_fenced:
        return fenced(content)
    return None, indented(content)
