"""Character classes used by harnesses (plain Python, both modes)."""
import string

LOWER = string.ascii_lowercase
UPPER = string.ascii_uppercase
DIGIT = string.digits
ALNUM = DIGIT + LOWER + UPPER
SYMBOL = '%&_@#;:,=<>~/'
ESCAPE = '.+\\"\'()[]{}*$^?|!-'
SIGNS = SYMBOL + ESCAPE
LEGAL = ALNUM + SIGNS
EXTRA = [0x80, 0x85, 0xA0, 0xA9, 0xB2, 0xC3, 0xDF, 0xE9, 0xFF, 0x130, 0x660,
         0x2003, 0x2100, 0x3000, 0x4E2D, 0xD800, 0xFF10, 0x1F600]
ANY = ''.join(map(chr, list(range(128)) + EXTRA))
BYTES = bytes(list(range(128)) + [c for c in EXTRA if c < 256])
# classes written with one letter in skeletons
CLASSES = {'l': LOWER, 'u': UPPER, 'd': DIGIT}
