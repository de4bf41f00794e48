"""Executable specification of escapes and references (C20)."""
import html
import re
from html.entities import html5

# a backslash escape (of ASCII punctuation) or a character reference of valid form
TOKEN = re.compile(
    r'\\[\x21-\x2F\x3A-\x40\x5B-\x60\x7B-\x7E]'
    r'|&(?:#[Xx][0-9A-Fa-f]{1,6}|#[0-9]{1,7}|[A-Za-z][A-Za-z0-9]{1,31});')


def reference(s):
    """The text for a character reference: unknown names stand for themselves."""
    if s[1] == '#':
        return html.unescape(s)
    name = s[1:]
    if name in html5:
        return html.unescape(s)
    return s


def decode(s):
    if s[0] == '\\':
        return s[1]
    return reference(s)


def unescape(s):
    return re.sub(TOKEN, lambda m: decode(m.group()), s)
