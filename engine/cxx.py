"""The C++ sources, read through clang's syntax tree (JSON, with resolved types) and restated as functions the value-flow
analysis can follow.  Vectors are lists, iterators are positions in the vector they were taken from, integer division is
floor division (all integers here are sizes), references are aliases of what they were bound to.  Whatever is not covered
raises Unsupported: the obligation is then undecided."""
import ast
import json
import keyword
import os
import re
import subprocess

from .repo import Module, Missing

INT = re.compile(r'^(const )?(unsigned |signed )?(int|long|long long|short|char|unsigned|size_t|std::size_t|unsigned long|.*size_type|.*difference_type|ptrdiff_t|std::ptrdiff_t|long int|bool)$')
THROUGH = ('ImplicitCastExpr', 'ParenExpr', 'ExprWithCleanups', 'MaterializeTemporaryExpr', 'CXXBindTemporaryExpr', 'ConstantExpr', 'FullExpr')
CASTS = ('CXXStaticCastExpr', 'CStyleCastExpr', 'CXXFunctionalCastExpr')


class Unsupported(Exception):
    pass


class Rounded(Unsupported):
    """a value loses digits"""


WIDTH = {'char': (256, 1), 'signed char': (256, 1), 'unsigned char': (256, 0), 'short': (65536, 1), 'unsigned short': (65536, 0),
         'uint8_t': (256, 0), 'int8_t': (256, 1), 'uint16_t': (65536, 0), 'int16_t': (65536, 1)}


def qual(n):
    t = n.get('type', {})
    return t.get('desugaredQualType', t.get('qualType', ''))


def is_int(n):
    return bool(INT.match(qual(n).replace('&', '').strip()))


def is_float(n):
    return qual(n).replace('const', '').replace('&', '').strip() in ('double', 'float', 'long double')


def is_iter(q):
    return 'iterator' in q


def is_vector(q):
    q = q.replace('const ', '').strip()
    return q.startswith('std::vector<') or q.startswith('vector<')


def is_map(q):
    q = q.replace('const ', '').strip()
    return bool(re.match(r'(std::)?(unordered_)?map<', q))


def parse(path, include, names):
    """declarations of the named functions that have a body"""
    out = {}
    for n in names:
        r = subprocess.run(['clang', '-x', 'c++', '-std=c++17', '-I', include, '-fsyntax-only', '-Xclang', '-ast-dump=json', '-Xclang',
                            '-ast-dump-filter=' + n, path], capture_output=True, text=True, timeout=120)
        if r.returncode != 0:
            raise Unsupported('clang does not accept the file: %s' % r.stderr[-300:])
        dec, i, s = json.JSONDecoder(), 0, r.stdout
        while i < len(s):
            if s[i].isspace():
                i += 1
                continue
            d, i = dec.raw_decode(s, i)
            if d.get('kind') == 'FunctionDecl' and d.get('name') == n and any(c.get('kind') == 'CompoundStmt' for c in d.get('inner', ())):
                out[n] = d
    return out


class Writer(object):
    def __init__(self, fns):
        self.fns = fns
        self.n = 0
        self.stmts = []

    def fresh(self, base='k'):
        self.n += 1
        return '_%s%d' % (base, self.n)

    def name(self, d):
        n = d.get('name') or self.fresh()
        n = self.renamed.get(d['id'], n)
        return n + '_' if keyword.iskeyword(n) or n in ('len', 'list', 'range', 'sum', 'float', 'int') else n

    # ------------------------------------------------------------------ expressions
    def strip(self, e):
        while e['kind'] in THROUGH and (e['kind'] != 'ImplicitCastExpr' or e.get('castKind') not in ('IntegralToFloating', 'FloatingToIntegral')):
            e = [c for c in e['inner']][-1 if e['kind'] != 'ExprWithCleanups' else 0]
        return e

    def narrow(self, e, x):
        """integers of few bits wrap around"""
        t = self.ex(x)
        w = WIDTH.get(qual(e).replace('const', '').replace('std::', '').strip())
        if w is None or qual(e) == qual(x):
            return t
        n, sign = w
        return '(%s %% %d)' % (t, n) if not sign else '((%s + %d) %% %d - %d)' % (t, n // 2, n, n // 2)

    def compared(self, e):
        """text.compare(...) and text.find(...)"""
        e = self.strip(e)
        if e['kind'] == 'CXXMemberCallExpr' and e['inner'][0].get('name') in ('compare', 'find') and not is_vector(qual(self.strip(e['inner'][0]['inner'][0]))) \
                and not is_map(qual(self.strip(e['inner'][0]['inner'][0]))):
            return e['inner'][0]['name'], self.ex(e['inner'][0]['inner'][0]), [self.ex(a) for a in e['inner'][1:] if a['kind'] != 'CXXDefaultArgExpr']
        return None

    def texts(self, op, a, b):
        if op not in ('==', '!='):
            return None
        for x, y in ((a, b), (b, a)):
            c = self.compared(x)
            if c is None or self.strip(y)['kind'] != 'IntegerLiteral' or str(self.strip(y)['value']) != '0':
                continue
            n, t, args = c
            if len(args) == 1:
                r = '(%s == %s)' % (t, args[0]) if n == 'compare' else '%s.startswith(%s)' % (t, args[0])
            elif n == 'compare' and len(args) == 3 and args[0] == '0' and args[1] == 'len(%s)' % args[2]:
                r = '%s.startswith(%s)' % (t, args[2])
            else:
                return None
            return r if op == '==' else '(not %s)' % r
        return None

    def ex(self, e):
        k = e['kind']
        inner = e.get('inner', [])
        if k == 'ImplicitCastExpr' and e.get('castKind') in ('IntegralToFloating', 'FloatingToIntegral'):
            return ('float(%s)' if e['castKind'] == 'IntegralToFloating' else 'int(%s)') % self.ex(inner[0])
        if k == 'ImplicitCastExpr' and e.get('castKind') == 'IntegralCast':
            return self.narrow(e, inner[0])
        if (k in CASTS or k == 'ImplicitCastExpr') and qual(e).replace('const', '').strip() == 'float' and qual(inner[-1]).replace('const', '').strip() in ('double', 'long double') \
                and self.strip(inner[-1])['kind'] != 'FloatingLiteral':
            raise Rounded('a value is rounded to single precision (line %s)' % e.get('range', {}).get('begin', {}).get('line', '?'))
        if k in THROUGH:
            return self.ex(inner[0])
        if k in CASTS and e.get('castKind') in ('IntegralCast', 'NoOp') and is_int(e) and is_int(inner[-1]):
            return self.narrow(e, inner[-1])
        if k in CASTS:
            x = inner[-1]
            if is_float(e):
                return 'float(%s)' % self.ex(x)
            if is_int(e):
                return self.ex(x) if is_int(self.strip(x)) or not is_float(self.strip(x)) and self.strip(x)['kind'] != 'ImplicitCastExpr' else self.ex(x) if 'int(' in self.ex(x)[:4] else 'int(%s)' % self.ex(x)
            return self.ex(x)
        if k == 'DeclRefExpr':
            d = e['referencedDecl']
            if d['id'] in self.alias:
                return self.alias[d['id']]
            return self.name(d)
        if k in ('IntegerLiteral', 'FloatingLiteral'):
            v = str(e['value'])
            return v if k == 'IntegerLiteral' or '.' in v or 'e' in v.lower() else v + '.0'
        if k == 'CXXBoolLiteralExpr':
            return str(bool(e['value']))
        if k == 'StringLiteral':
            return repr(json.loads(e['value']))
        if k == 'ConditionalOperator':
            return '(%s if %s else %s)' % (self.ex(inner[1]), self.ex(inner[0]), self.ex(inner[2]))
        if k == 'ArraySubscriptExpr':
            return '%s[%s]' % (self.ex(inner[0]), self.ex(inner[1]))
        if k == 'BinaryOperator':
            op = e['opcode']
            a, b = inner
            if op in ('&&', '||'):
                return '(%s %s %s)' % (self.ex(a), 'and' if op == '&&' else 'or', self.ex(b))
            if self.texts(op, a, b):
                return self.texts(op, a, b)
            if op in ('+', '-', '*', '%', '<', '<=', '>', '>=', '==', '!='):
                return '(%s %s %s)' % (self.ex(a), op, self.ex(b))
            if op == '/':
                return '(%s %s %s)' % (self.ex(a), '//' if is_int(e) else '/', self.ex(b))
            raise Unsupported('operator %s' % op)
        if k == 'UnaryOperator':
            op = e['opcode']
            if op == '!':
                return '(not %s)' % self.ex(inner[0])
            if op in ('-', '+'):
                return '(%s%s)' % (op, self.ex(inner[0]))
            if op == '*':
                return self.deref(inner[0])
            raise Unsupported('operator %s in an expression' % op)
        if k == 'CXXOperatorCallExpr':
            op, args = self.operator(e)
            if op == '[]':
                return '%s[%s]' % (self.ex(args[0]), self.ex(args[1]))
            if op in ('*', '->') and len(args) == 1:
                return self.deref(args[0])
            if op in ('==', '!=', '<', '<=', '>', '>=', '+', '-') and len(args) == 2:
                return '(%s %s %s)' % (self.ex(args[0]), op, self.ex(args[1]))
            raise Unsupported('operator %s' % op)
        if k == 'CXXMemberCallExpr':
            m = inner[0]
            o, args = m['inner'][0], [a for a in inner[1:] if a['kind'] != 'CXXDefaultArgExpr']
            n = m['name']
            x = self.ex(o)
            if n in ('size', 'length') and not args:
                return 'len(%s)' % x
            if n == 'empty' and not args:
                return '(len(%s) == 0)' % x
            if n == 'at' and len(args) == 1:
                return '%s[%s]' % (x, self.ex(args[0]))
            if n in ('begin', 'cbegin') and not args and is_vector(qual(self.strip(o))):
                return '0'
            if n in ('end', 'cend') and not args and is_vector(qual(self.strip(o))):
                return 'len(%s)' % x
            if n == 'back':
                return '%s[-1]' % x
            if n == 'front':
                return '%s[0]' % x
            if n == 'count' and len(args) == 1 and is_map(qual(self.strip(o))):
                return '(1 if %s in %s else 0)' % (self.ex(args[0]), x)
            raise Unsupported('method %s' % n)
        if k == 'CallExpr':
            f = self.strip(inner[0])
            n = f.get('referencedDecl', {}).get('name')
            args = [a for a in inner[1:] if a['kind'] != 'CXXDefaultArgExpr']
            if n in self.fns:
                ps = [p for p in self.fns[n].get('inner', ()) if p['kind'] == 'ParmVarDecl']
                for p in ps:
                    q = qual(p)
                    if q.endswith('&') and 'const' not in q and not is_vector(q.rstrip('& ')):
                        raise Unsupported('argument by reference of %s' % n)
                return '%s(%s)' % (n, ', '.join(self.ex(a) for a in args))
            if n in ('find', 'count', 'accumulate') and len(args) == 3:
                x = self.whole(args[0], args[1])
                v = self.ex(args[2])
                if n == 'find':
                    return '(%s.index(%s) if %s in %s else len(%s))' % (x, v, v, x, x)
                if n == 'count':
                    return '%s.count(%s)' % (x, v)
                return '(sum(%s) + %s)' % (x, v)
            if n == 'distance' and len(args) == 2:
                return '(%s - %s)' % (self.ex(args[1]), self.ex(args[0]))
            raise Unsupported('call of %s' % n)
        if k in ('CXXConstructExpr', 'CXXTemporaryObjectExpr'):
            q = qual(e)
            args = [a for a in inner if a['kind'] != 'CXXDefaultArgExpr']
            if is_map(q) and not args:
                return 'collections.defaultdict(float)'
            if is_vector(q):
                if not args:
                    return '[]'
                if len(args) == 2 and is_int(self.strip(args[0])):
                    return '[%s]*%s' % (self.ex(args[1]), self.par(self.ex(args[0])))
                if len(args) == 2 and is_iter(qual(self.strip(args[0]))):
                    return 'list(%s)' % self.whole(args[0], args[1])
                if len(args) == 1 and is_vector(qual(self.strip(args[0]))):
                    x = self.ex(args[0])
                    return x if self.strip(args[0])['kind'] in ('CallExpr', 'CXXTemporaryObjectExpr', 'CXXConstructExpr') else 'list(%s)' % x
                if len(args) == 1 and is_int(self.strip(args[0])):
                    return '[0]*%s' % self.par(self.ex(args[0]))
            elif len(args) == 1:
                return self.ex(args[0])         # copy of a string or an iterator
            elif not args and 'string' in q:
                return "''"
            raise Unsupported('construction of %s' % q)
        if k == 'InitListExpr':
            return '[%s]' % ', '.join(self.ex(a) for a in inner)
        raise Unsupported(k)

    def par(self, s):
        return '(%s)' % s

    def operator(self, e):
        f = self.strip(e['inner'][0])
        return f['referencedDecl']['name'][len('operator'):], e['inner'][1:]

    def container(self, it):
        """the vector an iterator belongs to"""
        it = self.strip(it)
        if it['kind'] == 'DeclRefExpr' and it['referencedDecl']['id'] in self.over:
            return self.over[it['referencedDecl']['id']]
        if it['kind'] == 'CXXMemberCallExpr' and it['inner'][0]['name'] in ('begin', 'end', 'cbegin', 'cend'):
            return self.ex(it['inner'][0]['inner'][0])
        if it['kind'] == 'CXXConstructExpr' and it.get('inner'):
            return self.container(it['inner'][0])
        if it['kind'] == 'CallExpr' and len(it['inner']) > 1:
            return self.container(it['inner'][1])
        if it['kind'] == 'CXXOperatorCallExpr':
            op, args = self.operator(it)
            if op in ('+', '-'):
                return self.container(args[0])
        raise Unsupported('iterator of an unknown container')

    def deref(self, it):
        return '%s[%s]' % (self.container(it), self.ex(it))

    def whole(self, a, b):
        x, y = self.container(a), self.container(b)
        if x != y or self.ex(a) != '0' or self.ex(b) != 'len(%s)' % x:
            raise Unsupported('part of a container')
        return x

    # ------------------------------------------------------------------ statements
    def put(self, s, ind):
        self.out.append('    ' * ind + s)

    def body(self, s, ind):
        n = len(self.out)
        for x in (s.get('inner', []) if s['kind'] == 'CompoundStmt' else [s]):
            self.st(x, ind)
        if len(self.out) == n:
            self.put('pass', ind)

    def st(self, s, ind):
        k = s['kind']
        inner = s.get('inner', [])
        if k == 'CompoundStmt':
            return self.body(s, ind)
        if k == 'NullStmt':
            return
        if k == 'DeclStmt':
            for d in inner:
                if d['kind'] in ('TypedefDecl', 'TypeAliasDecl', 'UsingDecl', 'UsingDirectiveDecl'):
                    continue
                if d['kind'] != 'VarDecl':
                    raise Unsupported(d['kind'])
                self.var(d, ind)
            return
        if k == 'ReturnStmt':
            return self.put('return %s' % (self.ex(inner[0]) if inner else 'None'), ind)
        if k == 'BreakStmt':
            return self.put('break', ind)
        if k == 'ContinueStmt':
            return self.put('continue', ind)
        if k == 'IfStmt':
            if s.get('hasInit') or s.get('hasVar'):
                raise Unsupported('declaration in a condition')
            self.put('if %s:' % self.ex(inner[0]), ind)
            self.body(inner[1], ind + 1)
            if len(inner) > 2:
                self.put('else:', ind)
                self.body(inner[2], ind + 1)
            return
        if k == 'ForStmt':
            return self.loop(s, ind)
        if k == 'WhileStmt':
            self.put('while %s:' % self.ex(inner[0]), ind)
            return self.body(inner[-1], ind + 1)
        if k == 'CXXForRangeStmt':
            return self.each(s, ind)
        self.effect(s, ind)

    def var(self, d, ind):
        q = d['type']['qualType']
        full = d['type'].get('desugaredQualType', q)
        init = [c for c in d.get('inner', []) if c['kind'].endswith('Expr') or c['kind'] == 'ExprWithCleanups' or c['kind'].endswith('Operator') or c['kind'].endswith('Literal')]
        if q.rstrip().endswith('&') or full.rstrip().endswith('&'):
            self.alias[d['id']] = self.ex(init[0])
            if is_iter(full):
                self.over[d['id']] = self.container(init[0])
            for n in re.findall(r'\w+', self.alias[d['id']]):
                self.pinned.add(n)
            return
        self.unique(d)
        if is_iter(full) and init:
            self.over[d['id']] = self.container(init[0])
        if not init:
            return
        self.put('%s = %s' % (self.name(d), self.ex(init[0])), ind)

    def unique(self, d):
        n = d.get('name')
        if n in self.used and self.used[n] != d['id']:
            self.renamed[d['id']] = self.fresh(n)
        else:
            self.used[n] = d['id']

    def lvalue(self, e):
        e = self.strip(e)
        if e['kind'] == 'DeclRefExpr':
            x = self.ex(e)
            if re.match(r'\w+$', x) and x in self.pinned:
                raise Unsupported('%s changes while a reference depends on it' % x)
            return x
        if e['kind'] in ('CXXOperatorCallExpr', 'UnaryOperator', 'ArraySubscriptExpr', 'CXXMemberCallExpr'):
            x = self.ex(e)
            if x.endswith(']'):
                return x
        raise Unsupported('assignment to %s' % e['kind'])

    def effect(self, s, ind):
        s = self.strip(s)
        k = s['kind']
        inner = s.get('inner', [])
        if k == 'BinaryOperator' and s['opcode'] == '=':
            return self.put('%s = %s' % (self.lvalue(inner[0]), self.ex(inner[1])), ind)
        if k == 'BinaryOperator' and s['opcode'] == ',':
            self.effect(inner[0], ind)
            return self.effect(inner[1], ind)
        if k == 'CompoundAssignOperator':
            op = s['opcode'][:-1]
            if op == '/' and is_int(inner[0]):
                op = '//'
            if op not in ('+', '-', '*', '/', '//', '%'):
                raise Unsupported('operator %s=' % op)
            return self.put('%s %s= %s' % (self.lvalue(inner[0]), op, self.ex(inner[1])), ind)
        if k == 'UnaryOperator' and s['opcode'] in ('++', '--'):
            return self.put('%s %s= 1' % (self.lvalue(inner[0]), s['opcode'][0]), ind)
        if k == 'CXXOperatorCallExpr':
            op, args = self.operator(s)
            if op in ('++', '--'):
                return self.put('%s %s= 1' % (self.lvalue(args[0]), op[0]), ind)
            if op == '=':
                x = self.ex(args[1])
                return self.put('%s = %s' % (self.lvalue(args[0]), 'list(%s)' % x if is_vector(qual(self.strip(args[1]))) else x), ind)
            if op in ('+=', '-='):
                return self.put('%s %s %s' % (self.lvalue(args[0]), op, self.ex(args[1])), ind)
            raise Unsupported('operator %s' % op)
        if k == 'CXXMemberCallExpr':
            m = inner[0]
            n, x = m['name'], self.ex(m['inner'][0])
            if n in ('push_back', 'emplace_back') and len(inner) == 2:
                return self.put('%s.append(%s)' % (x, self.ex(inner[1])), ind)
            if n in ('reserve', 'shrink_to_fit'):
                return
            raise Unsupported('method %s' % n)
        if k == 'CallExpr':
            return self.put(self.ex(s), ind)
        raise Unsupported(k)

    def assigned(self, s, out=None):
        """ids of variables stored to in a statement"""
        out = set() if out is None else out
        if not isinstance(s, dict):
            return out
        k = s.get('kind')
        t = None
        if k == 'BinaryOperator' and s.get('opcode') == '=' or k == 'CompoundAssignOperator' or k == 'UnaryOperator' and s.get('opcode') in ('++', '--'):
            t = s['inner'][0]
        elif k == 'CXXOperatorCallExpr':
            op, args = self.operator(s)
            if op in ('=', '+=', '-=', '++', '--', '*=', '/='):
                t = args[0]
        if t is not None:
            t = self.strip(t)
            if t['kind'] == 'DeclRefExpr':
                out.add(t['referencedDecl']['id'])
        for c in s.get('inner', ()):
            self.assigned(c, out)
        return out

    def steps(self, inc):
        """variables moved on by one"""
        inc = self.strip(inc)
        if inc['kind'] == 'BinaryOperator' and inc['opcode'] == ',':
            return self.steps(inc['inner'][0]) + self.steps(inc['inner'][1])
        if inc['kind'] == 'CXXOperatorCallExpr' and self.operator(inc)[0] == ',':
            return [x for a in self.operator(inc)[1] for x in self.steps(a)]
        t = None
        if inc['kind'] == 'UnaryOperator' and inc['opcode'] == '++':
            t = inc['inner'][0]
        elif inc['kind'] == 'CXXOperatorCallExpr' and self.operator(inc)[0] == '++':
            t = self.operator(inc)[1][0]
        elif inc['kind'] in ('CompoundAssignOperator',) and inc['opcode'] == '+=' and self.strip(inc['inner'][1]).get('value') == '1':
            t = inc['inner'][0]
        t = self.strip(t) if t is not None else None
        if t is None or t['kind'] != 'DeclRefExpr':
            raise Unsupported('step of a loop')
        return [t['referencedDecl']]

    def loop(self, s, ind):
        init, _, test, inc, body = (s['inner'] + [None] * 5)[:5]
        if init and init.get('kind'):
            self.st(init, ind)
        if not (test and test.get('kind') and inc and inc.get('kind')):
            raise Unsupported('loop without test or step')
        ds = self.steps(inc)
        t = self.strip(test)
        if t['kind'] == 'BinaryOperator':
            op, (a, b) = t['opcode'], t['inner']
        elif t['kind'] == 'CXXOperatorCallExpr':
            op, (a, b) = self.operator(t)[0], self.operator(t)[1]
        else:
            raise Unsupported('test of a loop')
        a, b = self.strip(a), self.strip(b)
        less = ''
        if a['kind'] == 'BinaryOperator' and a['opcode'] in ('+', '-') and self.strip(a['inner'][0])['kind'] == 'DeclRefExpr':
            less = ' %s %s' % ('-' if a['opcode'] == '+' else '+', self.ex(a['inner'][1]))
            a = self.strip(a['inner'][0])
        ids = [d['id'] for d in ds]
        if a['kind'] != 'DeclRefExpr' or a['referencedDecl']['id'] not in ids:
            a, b = b, a
            op = {'<': '>', '>': '<', '<=': '>=', '>=': '<='}.get(op, op)
        if op not in ('<', '!=', '<=') or a['kind'] != 'DeclRefExpr' or a['referencedDecl']['id'] not in ids or set(ids) & self.assigned(body) or len(set(ids)) != len(ids):
            raise Unsupported('test of a loop')
        main = self.name(a['referencedDecl'])
        end = self.ex(b)
        end += less
        if op == '<=':
            end = '%s + 1' % end
        bound = set(re.findall(r'[A-Za-z_]\w*', end))
        if any(self.names.get(i) in bound for i in self.assigned(body)):
            raise Unsupported('the end of a loop moves')
        k = self.fresh()
        starts = {}
        for d in ds:
            starts[d['id']] = self.fresh('s')
            self.put('%s = %s' % (starts[d['id']], self.name(d)), ind)
        first = starts[a['referencedDecl']['id']]
        self.put('for %s in range(%s - %s):' % (k, end, first), ind)
        for d in ds:
            self.put('%s = %s + %s' % (self.name(d), starts[d['id']], k), ind + 1)
        self.body(body, ind + 1)
        self.put('else:', ind)
        for d in ds:
            self.put('%s = %s + (%s - %s)' % (self.name(d), starts[d['id']], end, first), ind + 1)

    def casts(self, e):
        return ([e['castKind']] if e.get('castKind') else []) + [x for c in e.get('inner', ()) for x in self.casts(c)]

    def each(self, s, ind):
        ds = [c for c in s['inner'] if c.get('kind') == 'DeclStmt']
        rng, var = ds[0]['inner'][0], ds[-1]['inner'][0]
        body = s['inner'][-1]
        x = self.ex(rng['inner'][0])
        q = var['type'].get('desugaredQualType', var['type']['qualType'])
        k = self.fresh()
        if not is_vector(qual(rng).replace('&', '').strip()):
            raise Unsupported('loop over %s' % qual(rng))
        self.put('for %s in range(len(%s)):' % (k, x), ind)
        if q.rstrip().endswith('&'):
            self.alias[var['id']] = '%s[%s]' % (x, k)
        else:
            self.unique(var)
            conv = [self.casts(c) for c in var.get('inner', ())]
            self.put(('%s = int(%s[%s])' if 'FloatingToIntegral' in sum(conv, []) else '%s = %s[%s]') % (self.name(var), x, k), ind + 1)
        self.body(body, ind + 1)

    def decls(self, s):
        if isinstance(s, dict):
            if s.get('kind') in ('VarDecl', 'ParmVarDecl'):
                self.names[s['id']] = s.get('name')
            for c in s.get('inner', ()):
                self.decls(c)

    def function(self, d):
        self.out, self.alias, self.over, self.renamed, self.used, self.pinned, self.names = [], {}, {}, {}, {}, set(), {}
        self.decls(d)
        ps = [p for p in d['inner'] if p['kind'] == 'ParmVarDecl']
        for p in ps:
            self.used[p.get('name')] = p['id']
        self.put('def %s(%s):' % (d['name'], ', '.join(self.name(p) for p in ps)), 0)
        self.body([c for c in d['inner'] if c['kind'] == 'CompoundStmt'][0], 1)
        return '\n'.join(self.out) + '\n'


class CxxModule(Module):
    """the functions of a C++ file"""

    def __init__(self, root, rel, include):
        self.path, self.rel, self.name = os.path.join(root, rel), rel, 'cxx.' + os.path.basename(rel).rsplit('.', 1)[0]
        if not os.path.exists(self.path):
            raise Missing('file %s' % rel)
        text = re.sub(r'//[^\n]*|/\*.*?\*/', '', open(self.path, errors='replace').read(), flags=re.S)
        names = [n for n in dict.fromkeys(re.findall(r'(\w+)\s*\([^;{}()]*\)\s*(?:noexcept\s*)?\{', text)) if n not in ('if', 'for', 'while', 'switch', 'catch')]
        decls = parse(self.path, os.path.join(root, include), names)
        w = Writer(decls)
        self.source = 'import collections\n\n\n' + '\n'.join(w.function(decls[n]) for n in names if n in decls)
        self.tree = ast.parse(self.source)
        self.functions, self.classes, self.imports, self.consts = {}, {}, {}, {}
        self.load(self.tree.body)
        for n, f in self.functions.items():
            loc = decls[n].get('loc', {})
            f.node.lineno = loc.get('line') or f.node.lineno
