#!/usr/bin/env python3
"""Turns formula text (ordinary infix) into TLA+ on the operators of spec/FP.tla.
Used to write the propagation modules; the TLA+ text is what is committed and checked."""
import ast, re, sys

FN = {'sin': 'Sin', 'cos': 'Cos', 'sqrt': 'Sqrt', 'pow': 'Pow', 'atan2': 'Atan2', 'abs': 'Abs', 'tan': 'Tan', 'sq': 'Sq', 'fmod': 'FMod', 'floor': 'Floor', 'asin': 'Asin'}
OPS = {ast.Add: '(+)', ast.Sub: '(-)', ast.Mult: '(.)', ast.Div: '(/)'}


def num(v):
    r = repr(v)
    return 'D("%s")' % (r[:-2] if r.endswith('.0') else r)


def ex(n, top=True):
    if isinstance(n, ast.BinOp):
        op = OPS[type(n.op)]
        l, r = ex(n.left, False), ex(n.right, False)
        if isinstance(n.left, ast.BinOp) and type(n.left.op) is type(n.op) and op in ('(+)', '(.)'):
            l = l[1:-1]
        s = f'{l} {op} {r}'
        return s if top else f'({s})'
    if isinstance(n, ast.UnaryOp):
        if isinstance(n.op, ast.USub):
            if isinstance(n.operand, ast.Constant):
                return num(-n.operand.value)
            return f'Neg({ex(n.operand)})'
        if isinstance(n.op, ast.Not):
            return f'~({ex(n.operand)})'
    if isinstance(n, ast.Constant):
        if isinstance(n.value, bool): return str(n.value).upper()
        if isinstance(n.value, str): return '"%s"' % n.value
        return num(n.value)
    if isinstance(n, ast.Name):
        return n.id
    if isinstance(n, ast.Attribute):
        return f'{ex(n.value)}.{n.attr}'
    if isinstance(n, ast.Subscript):
        return f'{ex(n.value)}[{n.slice.value}]'
    if isinstance(n, ast.Call):
        return f'{FN.get(n.func.id, n.func.id)}({", ".join(ex(a) for a in n.args)})'
    if isinstance(n, ast.Compare):
        l, r = ex(n.left, False), ex(n.comparators[0], False)
        o = n.ops[0]
        s = {ast.Lt: f'{l} \\prec {r}', ast.LtE: f'{l} \\preceq {r}', ast.Gt: f'{r} \\prec {l}', ast.GtE: f'{r} \\preceq {l}', ast.Eq: f'{l} = {r}', ast.NotEq: f'{l} # {r}'}[type(o)]
        return f'({s})'
    if isinstance(n, ast.BoolOp):
        return '(' + (' /\\ ' if isinstance(n.op, ast.And) else ' \\/ ').join(ex(v, False) for v in n.values) + ')'
    if isinstance(n, ast.IfExp):
        return f'(IF {ex(n.test)} THEN {ex(n.body)} ELSE {ex(n.orelse)})'
    if isinstance(n, ast.Tuple):
        return '<<' + ', '.join(ex(e) for e in n.elts) + '>>'
    raise SystemExit('cannot translate ' + ast.dump(n))


def tr(s):
    return ex(ast.parse(s.strip(), mode='eval').body)


def wrap(s, ind, width=150):
    if len(s) <= width: return s
    out, cur = [], ''
    for w in re.split(r'( (?=\([+.-]\) ))', s):
        if len(cur) + len(w) > width and cur.strip():
            out.append(cur.rstrip()); cur = ' ' * ind + w.strip() + ('' if not w.strip() else '')
        else:
            cur += w
    out.append(cur)
    return '\n'.join(out)


def translate(text):
    out = []
    logical = []
    for line in text.split('\n'):
        if line.endswith('\\'):
            logical.append(line[:-1]); continue
        yield_line = ' '.join([*(x.strip() for x in logical), line.strip()]) if logical else line
        logical = []
        l = yield_line
        if l.startswith('!'):
            out.append(l[1:])
        elif l.startswith('DEF '):
            out.append(l[4:] + ' ==\n  LET')
        elif l.startswith('RETURN '):
            body = l[7:].strip()
            if body.startswith('{'):
                names = [x.strip() for x in body[1:-1].split(',')]
                body = '[' + ', '.join((n.split(':')[0].strip() + ' |-> ' + tr(n.split(':')[1])) if ':' in n else f'{n} |-> {n}' for n in names) + ']'
            elif body.startswith('!'):
                body = body[1:]
            else:
                body = tr(body)
            if out[-1].endswith('==\n  LET'):
                out[-1] = out[-1][:-4] + '  ' + wrap(body, 6, 170)
            else:
                out.append('  IN  ' + wrap(body, 6, 170))
        elif l.strip().startswith('#'):
            out.append('      \\* ' + l.strip()[1:].strip())
        elif ' = ' in l:
            a, b = l.split(' = ', 1)
            b = b.strip()
            b = b[1:] if b.startswith('!') else tr(b)
            out.append('      ' + wrap(f'{a.strip()} == {b}', 12))
        elif not l.strip():
            out.append('')
        else:
            raise SystemExit('line? ' + l)
    return '\n'.join(out)


if __name__ == '__main__':
    src, dst = sys.argv[1:]
    open(dst, 'w').write(translate(open(src).read()).rstrip() + '\n')
