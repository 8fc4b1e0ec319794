"""Reference: the lexical rules of each preset language, in priority order."""
BASIC = [
    ('NUMBER', r'\d+(\.\d*)?'),
    ('ID', r'[A-Za-z0-9_]+'),
    ('OP', r'[+\-*/]'),
    ('PUNC', r'[,.;:=><]'),
    ('BRACE', r'[()\[\]{}]'),
    ('NEWLINE', r'\n'),
    ('TAB', r'\t'),
    ('WHITE_SPACE', r' +'),
    ('OTHER', r'.'),
]
PY = [('STRING', r'''("""|\'\'\'|"|\')((?<!\\)\\\2|.)*?\2'''), ('COMMENT_HASH', r'(#)[^\n]*')]
C = [('COMMENT_SLASHSLASH', r'(//)[^\n]*'),
     ('COMMENT_SLASHSTAR', r'//.*?$|/\*.*?\*/|\'(?:\\.|[^\\\'])*\'|"(?:\\.|[^\\"])*"'),
     ('STRING', r'''(")((?<!\\)\\\2|.)*?\2''')]
MACRO = [('C_PREPROCESSOR', r'(#include|#define|#undef|#ifdef|#ifndef|#line|#if|#endif|#error)(\\\n|[^(\n|//|/\*)])*')]
RULES = {'python_preprocessor': PY + BASIC, 'cpp': MACRO + C + BASIC, 'java': C + BASIC, 'javascript': C + BASIC, 'simple': BASIC}
