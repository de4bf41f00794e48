"""Executable specifications of the inline steps: plain Python, run symbolically against the code."""
import re
import unicodedata

from .spec_text import TOKEN, reference

REFERENCE = re.compile(r'&(?:#[Xx][0-9A-Fa-f]{1,6}|#[0-9]{1,7}|[A-Za-z][A-Za-z0-9]{1,31});')
ASCII_PUNCTUATION = re.compile(r'[\x21-\x2F\x3A-\x40\x5B-\x60\x7B-\x7E]')
EMAIL = re.compile(
    r"<([a-zA-Z0-9.!#$%&'*+/=?^_`{|}~-]+@[a-zA-Z0-9](?:[a-zA-Z0-9-]{0,61}[a-zA-Z0-9])?"
    r"(?:\.[a-zA-Z0-9](?:[a-zA-Z0-9-]{0,61}[a-zA-Z0-9])?)*)>")


def backslash(subject, pos):
    """(node type, literal, position after) of a backslash at pos."""
    c = subject[pos + 1:pos + 2]
    if c == '\n':
        return 'linebreak', None, pos + 2
    if re.match(ASCII_PUNCTUATION, c):
        return 'text', c, pos + 2
    return 'text', '\\', pos + 1


def entity(subject, pos):
    m = re.match(REFERENCE, subject[pos:])
    if m:
        return 'text', reference(m.group()), pos + len(m.group())
    return None


def newline(subject, pos, before):
    """(node type, text before, position after) of a line ending at pos; before: text node before."""
    rest = subject[pos + 1:]
    after = pos + 1 + len(rest) - len(rest.lstrip(' '))
    if before is not None and before.endswith(' '):
        if before.endswith('  '):
            return 'linebreak', before.rstrip(' '), after
        return 'softbreak', before.rstrip(' '), after
    return 'softbreak', before, after


def code_span(content):
    """Content of a code span, from the source between the backtick runs."""
    s = content.replace('\n', ' ')
    if s[:1] == ' ' and s[-1:] == ' ' and s.strip(' ') != '':
        return s[1:-1]
    return s


def is_email(s):
    return re.match(EMAIL, s) is not None


# ---- hyphens, full stops (C14)
def dashes(n):
    """n hyphens, n at least 2."""
    if n % 3 == 0:
        return '\u2014' * (n // 3)
    if n % 2 == 0:
        return '\u2013' * (n // 2)
    if n % 3 == 2:
        return '\u2014' * ((n - 2) // 3) + '\u2013'
    return '\u2014' * ((n - 4) // 3) + '\u2013\u2013'


def smart(s):
    s = re.sub(r'\.\.\.', '\u2026', s)
    return re.sub(r'-{2,}', lambda m: dashes(len(m.group())), s)


# ---- flanking (C16)
def _class(f):
    out, start = [], None
    for i in range(0x110001):
        if i < 0x110000 and not 0xD800 <= i < 0xE000 and f(chr(i)):
            start = i if start is None else start
        elif start is not None:
            out.append((start, i - 1))
            start = None
    return '[' + ''.join('%s-%s' % (re.escape(chr(a)), re.escape(chr(b))) for a, b in out) + ']'


# punctuation characters assigned after the Unicode version of the code's table: left undecided
UNSTABLE = [[1565, 1565], [2557, 2557], [2678, 2678], [3191, 3191], [3204, 3204], [5741, 5741],
            [7037, 7038], [11843, 11855], [11858, 11869], [69293, 69293], [69461, 69465],
            [69510, 69513], [70089, 70089], [70731, 70735], [70746, 70747], [70749, 70749],
            [71264, 71276], [71353, 71353], [71739, 71739], [72004, 72006], [72162, 72162],
            [72255, 72262], [72346, 72348], [72350, 72354], [72448, 72457], [72769, 72773],
            [72816, 72817], [73463, 73464], [73539, 73551], [73727, 73727], [77809, 77810],
            [93847, 93850], [94178, 94178], [125278, 125279]]
WHITESPACE = re.compile(_class(lambda c: c in '\t\n\f\r' or unicodedata.category(c) == 'Zs'))
PUNCTUATION = re.compile(_class(lambda c: c in '!"#$%&\'()*+,-./:;<=>?@[\\]^_`{|}~' or
                                unicodedata.category(c)[0] == 'P'))
UNDECIDED = re.compile(_class(lambda c: any(a <= ord(c) <= b for a, b in UNSTABLE)))


def flanking(c, before, after):
    """(can open, can close) of a delimiter run of character c between two characters."""
    ws_a, ws_b = re.match(WHITESPACE, after), re.match(WHITESPACE, before)
    p_a, p_b = re.match(PUNCTUATION, after), re.match(PUNCTUATION, before)
    left = not ws_a and (not p_a or ws_b or p_b)
    right = not ws_b and (not p_b or ws_a or p_a)
    if c == '_':
        return (left and (not right or p_b)), (right and (not left or p_a))
    if c == '*':
        return left, right
    # quotation marks
    return (left and not right), right


# ---- parts of links (C12)
LABEL = re.compile(r'^\[(?:[^\\\[\]]|\\[^\n])*\]')
# a final backslash may stand in front of the closing delimiter, as in the reference implementations
TITLE = re.compile(r'^(?:"(?:[^"\x00]|\\")*"|\'(?:[^\'\x00]|\\\')*\'|\((?:[^()\x00]|\\[()])*\))')
BRACED = re.compile(r'^<(?:[^<>\n\\\x00]|\\[^\n])*>')


def code(subject, pos, end):
    """(backticks, content) of a code span from pos to end."""
    ticks = re.match('`+', subject[pos:]).group()
    return ticks, code_span(subject[pos + len(ticks):end - len(ticks)])


# ---- link reference definitions (C12)
def normal_label(label):
    """Labels match when these are equal: trimmed, white space collapsed, case folded."""
    return re.sub(r'[ \t\n\x0b\x0c\r]+', ' ', label[1:-1].strip()).casefold()
