"""S10: ports, files, processes and running programs (reference: a Python model of files, ports and the environment)."""
import os
import shutil
import sys
import time
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from vf import pbt, scheme
from S03 import show, lit

SHARED = '''
(define (vf-int c) (if (char? c) (char->integer c) (if (eof-object? c) -1 c)))
(define (vf-put x) (write x) (newline))
(define (vf-chars n) (if (= n 0) 0 (begin (write-char (integer->char (+ 97 (modulo n 26)))) (vf-chars (- n 1)))))
(define (vf-count p) (let loop ((n 0) (s 0)) (let ((c (vf-int (read-char p)))) (if (= c -1) (list n s) (loop (+ n 1) (modulo (+ (* s 31) c) 65521))))))
(define (vf-junk n) (if (= n 0) '() (cons (make-string 3 #\\x) (vf-junk (- n 1)))))
'''


def esc(b):
    return lit(b).replace('\n', '\\n')


class In:
    def __init__(self, var, data, file):
        self.var, self.data, self.file = var, data, file
        self.pos = 0
        self.back = False           # the one character of push-back a file port has
        self.last = None            # character that may be given back

    def get(self):
        self.back = False
        if self.pos < len(self.data):
            self.pos += 1
            self.last = ord(self.data[self.pos - 1])
            return self.last
        self.last = None
        return -1

    def peek(self):
        if self.pos < len(self.data):
            self.back = True
            self.last = None
            return ord(self.data[self.pos])
        return -1


class G:
    def __init__(self, s):
        self.s = s
        self.files = {}             # name -> content as it is now (model)
        self.init = {}              # what exists before the case runs
        self.modes = {}
        self.ins = []
        self.outs = {}              # var -> [file name]  (shared list: dup2 rebinds)
        self.cur = None
        self.n = 0
        self.f = set()
        self.env = {}
        self.sinks = [[]]           # where emitted text goes: list of pieces
        self.kinds = ['out']        # what the current output is: 'out', 'string', or a file name
        self.lines = []
        self.gone = set()

    def name(self, p):
        self.n += 1
        return '%s%d' % (p, self.n)

    def emit(self, t):
        self.sinks[-1].append(t)

    def put(self, expr, want):
        self.emit(want + '\n')
        return '(vf-put %s)' % expr

    # -- data ---------------------------------------------------------------
    def text(self, n=None):
        s = self.s
        if n is None:
            n = s.weighted([(6, s.int(0, 12)), (3, s.int(0, 60)), (1, s.int(100, 700))])
        if n > 60:
            unit = ''.join(chr(s.weighted([(9, s.int(97, 122)), (2, 32), (1, 10), (1, s.int(0, 255))])) for _ in range(s.int(5, 25)))
            return (unit * (n // len(unit) + 1))[:n]
        return ''.join(chr(s.weighted([(9, s.int(97, 122)), (2, 32), (3, 10), (1, s.int(0, 255)), (1, s.pick([0, 34, 92, 127, 128, 255, 13, 9]))]))
                       for _ in range(n))

    def datum(self, d=2):
        s = self.s
        k = s.draw(6 if d else 4)
        if k == 0:
            return ['i', s.pick([0, 1, -1, 7, 42, -300, 65536, 123456789])]
        if k == 1:
            return ['s', ''.join(s.pick('ab c\n"\\') for _ in range(s.int(0, 6)))]
        if k == 2:
            return ['y', s.pick(['foo', 'bar', 'x->y', 'a.b', '+'])]
        if k == 3:
            return ['b', s.bool()]
        items = [self.datum(d - 1) for _ in range(s.int(0, 4))]
        return ['l', items, ['i', 9] if items and s.bool(1, 5) else None]

    # -- statements ----------------------------------------------------------
    def any_file(self):
        fs = sorted(self.files)
        return self.s.pick(fs) if fs else None

    def stmt(self, depth):
        s = self.s
        k = s.draw(34)
        if k <= 1 or not self.ins and k <= 9:
            return self.open_in()
        if k <= 9:
            return self.read_op()
        if k <= 11:
            return self.cur_op()
        if k <= 12 or not self.outs and k <= 17:
            return self.open_out()
        if k <= 17:
            return self.write_op(s.pick(sorted(self.outs)))
        if k <= 19:
            return self.here()
        if k <= 23 and depth > 0:
            return self.redirect(depth)
        if k == 24:
            return self.environ()
        if k <= 26:
            return self.filesys()
        if k <= 28:
            return self.process()
        if k == 29:
            return self.names()
        if k == 30:
            return self.desc()
        if k == 31:
            return self.clock()
        if k == 32:
            self.f.add('garbage')
            return '(vf-junk %d)' % s.pick([10, 300, 2000])
        if self.s.bool():
            return self.loaded()
        return self.data_port()

    def open_in(self):
        s = self.s
        v = self.name('i')
        if s.bool(2, 5):
            d = self.text()
            self.f.add('string-port')
            self.ins.append(In(v, d, False))
            return '(define %s (open-input-string %s))' % (v, lit(d))
        # not one that a port may still be writing
        fs = [f for f in sorted(self.files) if not any(f == o[0] for o in self.outs.values()) and f not in self.kinds]
        if not fs or s.bool(1, 3):
            f = self.name('@@/in')
            self.files[f] = self.init[f] = self.text()
            if len(self.init[f]) > 200:
                self.f.add('large-file')
        else:
            f = s.pick(fs)
        self.f.add('file-port')
        self.ins.append(In(v, self.files[f], True))
        if s.bool(1, 12):
            self.ins.pop()
            self.f.add('missing-file')
            return self.put("(catch 'system-error (lambda () (open-input-file \"@@/none\")) (lambda (k . a) k))", 'system-error')
        return '(define %s (open-input-file "%s"))' % (v, f)

    def line(self, p):
        c = p.get()
        if c == -1:
            return None
        r = ''
        while c not in (-1, 10):
            r += chr(c)
            c = p.get()
        p.last = None
        return r

    def read_op(self):
        s = self.s
        p = s.pick(self.ins)
        v = p.var
        k = s.draw(8)
        if k <= 3:
            n = s.int(1, 5)
            return ' '.join(self.put('(vf-int (read-char %s))' % v, str(p.get())) for _ in range(n))
        if k <= 5:
            pos = p.pos
            l = self.line(p)
            if s.bool(1, 4):
                self.f.add('read-line-concat')
                return self.put("(vf-int (read-line %s 'concat))" % v, '-1' if l is None else show(['s', l + '\n'], True, True))
            self.f.add('read-line')
            return self.put('(vf-int (read-line %s))' % v, '-1' if l is None else show(['s', l], True, True))
        if k == 6:
            r = p.data[p.pos:]
            p.pos, p.last, p.back = len(p.data), None, False
            self.f.add('read-string')
            return self.put('(read-string %s)' % v, show(['s', r], True, True))
        n = h = 0
        c = p.get()
        while c != -1:
            n, h = n + 1, (h * 31 + c) % 65521
            c = p.get()
        return self.put('(vf-count %s)' % v, '(%d %d)' % (n, h))

    def cur_op(self):
        """Make a port the current input and use the operations that have no port argument."""
        s = self.s
        if not self.ins:
            return self.open_in()
        self.f.add('current-input')
        p = s.pick(self.ins)
        sv = self.name('s')
        out = ['(define %s (set-current-input-port %s))' % (sv, p.var)]
        other = None
        for _ in range(s.int(1, 9)):
            k = s.draw(14)
            if k >= 12:         # an operation on another port leaves the current one alone
                qs = [q for q in self.ins if q is not p]
                if qs:
                    self.f.add('explicit-while-current')
                    q = s.pick(qs)
                    j = s.draw(3)
                    if j == 0:
                        out.append(self.put('(vf-int (read-char %s))' % q.var, str(q.get())))
                    elif j == 1:
                        l = self.line(q)
                        out.append(self.put('(vf-int (read-line %s))' % q.var, '-1' if l is None else show(['s', l], True, True)))
                    else:
                        r = q.data[q.pos:]
                        q.pos, q.last, q.back = len(q.data), None, False
                        out.append(self.put('(read-string %s)' % q.var, show(['s', r], True, True)))
            elif k <= 1:
                out.append(self.put('(vf-int (peek-char))', str(p.peek())))
            elif k <= 4:
                out.append(self.put('(vf-int (read-char))', str(p.get())))
            elif k == 5:
                out.append(self.put('(peek-byte)', str(p.peek())))
            elif k == 6:
                out.append(self.put('(read-byte)', str(p.get())))
            elif k <= 8 and p.last is not None and not (p.file and p.back):
                # give back the character just read
                c = p.last
                p.pos -= 1
                p.last = None
                p.back = True
                self.f.add('unread')
                out.append('(unread-char (integer->char %d))' % c if s.bool() else '(unread-byte %d)' % c)
            elif k == 9:
                l = self.line(p)
                out.append(self.put('(vf-int (read-line))', '-1' if l is None else show(['s', l], True, True)))
            elif k == 10 and s.bool(1, 3):
                r = p.data[p.pos:]
                p.pos, p.last, p.back = len(p.data), None, False
                out.append(self.put('(read-string)', show(['s', r], True, True)))
            elif k == 11 and len(self.ins) > 1 and other is None:
                q = s.pick(self.ins)
                if q is not p:      # nested switch and back
                    self.f.add('nested-input')
                    w = self.name('s')
                    out.append('(define %s (set-current-input-port %s)) %s (set-current-input-port %s)' % (
                        w, q.var, self.put('(vf-int (read-char))', str(q.get())), w))
        out.append('(set-current-input-port %s)' % sv)
        return ' '.join(out)

    def open_out(self):
        s = self.s
        v = self.name('o')
        busy = {o[0] for o in self.outs.values()} | set(self.kinds)
        old = [f for f in sorted(self.files) if f not in busy and not any(p.file for p in self.ins)]
        if old and s.bool(1, 4):
            f = s.pick(old)
            self.f.add('truncate')
            mode = ''
        else:
            f = self.name('@@/out')
            mode = ''
            if s.bool(1, 4):
                m = s.pick([0o644, 0o600, 0o755, 0o700, 0o640])
                mode = ' %s' % s.pick(['#o%o' % m, str(m)])
                self.modes[f] = m & ~0o022
                self.f.add('mode')
        self.files[f] = ''
        self.gone.discard(f)
        self.outs[v] = [f]
        self.f.add('output-file')
        return '(define %s (open-output-file "%s"%s))' % (v, f, mode)

    def add(self, f, t):
        self.files[f] += t

    def output(self, port):
        """-> (scheme, text) of one output operation on PORT ('' = current)."""
        s = self.s
        p = ' ' + port if port else ''
        k = s.draw(9)
        if k == 0:
            c = s.weighted([(4, s.int(97, 122)), (1, s.int(0, 255)), (1, 10)])
            if s.bool():
                return '(write-char (integer->char %d)%s)' % (c, p), chr(c)
            return '(write-byte %d%s)' % (c, p), chr(c)
        if k == 1:
            return '(newline%s)' % p, '\n'
        if k <= 3:
            d = self.datum()
            return "(display '%s%s)" % (show(d, True, False), p), show(d, False, True)
        if k <= 5:
            d = self.datum()
            return "(write '%s%s)" % (show(d, True, False), p), show(d, True, True)
        if k == 6:
            a, b = self.datum(1), self.datum(1)
            self.f.add('format')
            return "(simple-format %s \"x~a-~s~%s\" '%s '%s 'end)" % (port or '#t', s.pick('aA'), show(a, True, False), show(b, True, False)), \
                'x%s-%send' % (show(a, False, True), show(b, True, True))
        if k == 7:
            t = self.text(s.int(0, 40))
            return '(display %s%s)' % (lit(t), p), t
        n = s.int(0, 12)
        if port or 'string' in self.kinds:
            return '(write-char #\\z%s)' % p, 'z'
        return '(vf-chars %d)' % n, ''.join(chr(97 + i % 26) for i in range(n, 0, -1))

    def write_op(self, v):
        f = self.outs[v][0]
        if self.s.bool(1, 8):
            self.f.add('core-port')
            d = self.datum()
            w = self.s.bool()
            self.add(f, show(d, w, False))
            return "(core:%s-port '%s %s)" % ('write' if w else 'display', show(d, True, False), v)
        e, t = self.output(v)
        self.add(f, t)
        return e

    def here(self):
        e, t = self.output('')
        self.emit(t)
        return e

    def block(self, depth):
        return ' '.join(self.stmt_inner(depth) for _ in range(self.s.int(0, 4)))

    def stmt_inner(self, depth):
        """A statement inside a lambda: no definitions."""
        s = self.s
        for _ in range(4):
            k = s.draw(7)
            if k <= 2:
                return self.here()
            if k == 3 and self.outs:
                return self.write_op(s.pick(sorted(self.outs)))
            if k == 4 and self.ins:
                return self.read_op()
            if k == 5 and depth > 0:
                return self.redirect(depth)
            if k == 6:
                return self.data_port()
        return self.here()

    def redirect(self, depth):
        s = self.s
        k = s.draw(8)
        if k <= 2:
            self.f.add('to-string')
            self.sinks.append([])
            self.kinds.append('string')
            b = self.block(depth - 1)
            t = ''.join(self.sinks.pop())
            self.kinds.pop()
            if s.bool(1, 4):
                return self.put('(string-length (with-output-to-string (lambda () %s #f)))' % b, str(len(t)))
            return self.put('(with-output-to-string (lambda () %s #f))' % b, show(['s', t], True, True))
        if k <= 4:
            self.f.add('to-file')
            f = self.name('@@/to')
            self.sinks.append([])
            self.kinds.append(f)
            b = self.block(depth - 1)
            self.kinds.pop()
            self.files[f] = ''.join(self.sinks.pop())
            if s.bool(1, 3):
                return self.put('(with-output-to-file "%s" (lambda () %s (quote r)))' % (f, b), 'r')
            return '(with-output-to-file "%s" (lambda () %s #f))' % (f, b)
        if k == 5:
            self.f.add('error-to-file')
            f = self.name('@@/err')
            self.files[f] = ''
            b = []
            for _ in range(s.int(0, 3)):
                if s.bool():
                    d = self.datum()
                    b.append("(%s '%s)" % (('core:write-error', 'core:display-error')[s.bool()], show(d, True, False)))
                    self.files[f] += show(d, 'write' in b[-1], False)
                else:
                    e, t = self.output('(current-error-port)')
                    b.append(e)
                    self.files[f] += t
            return '(with-error-to-file "%s" (lambda () %s #f))' % (f, ' '.join(b))
        if k == 6 and self.outs:
            v = s.pick(sorted(self.outs))
            f = self.outs[v][0]
            self.f.add('to-port')
            self.sinks.append([])
            self.kinds.append(f)
            b = ' '.join(self.here() for _ in range(s.int(0, 3)))
            self.kinds.pop()
            self.add(f, ''.join(self.sinks.pop()))
            return '(with-output-to-port %s (lambda () %s #f))' % (v, b)
        # input from a string or a file
        t = self.text(s.int(0, 30))
        self.f.add('with-input')
        p = In('', t, False)
        ops = []
        for _ in range(s.int(0, 4)):
            if s.bool():
                ops.append(self.put('(vf-int (read-char))', str(p.get())))
            else:
                ops.append(self.put('(vf-int (peek-char))', str(p.peek())))
        r = p.data[p.pos:]
        if s.bool():
            f = self.name('@@/win')
            self.files[f] = self.init[f] = t
            h = '(with-input-from-file "%s"' % f
        else:
            return ' '.join(['(vf-put (with-input-from-string %s (lambda () %s (read-string))))' % (lit(t), ' '.join(ops)),
                             (self.emit(show(['s', r], True, True) + '\n') or '')])
        self.emit(show(['s', r], True, True) + '\n')
        return '(vf-put %s (lambda () %s (read-string))))' % (h, ' '.join(ops))

    def environ(self):
        s = self.s
        self.f.add('environment')
        k = s.pick(['VF_@@', 'VF_@@_LONG', 'VF_@', 'A@@', 'VF_@@x'])
        if s.bool(3, 5):
            v = s.weighted([(5, ''.join(s.pick('abc=/: .') for _ in range(s.int(0, 10)))), (1, 'y' * s.int(50, 900))])
            self.env[k] = v
            return '(setenv "%s" %s)' % (k, lit(v))
        if s.bool(1, 6):
            return self.put('(getenv "HOME")', '"/root"')
        if k in self.env:
            return self.put('(getenv "%s")' % k, show(['s', self.env[k]], True, True))
        if k == 'VF_@':
            return ''
        return self.put('(getenv "%s")' % k, '#f')

    def filesys(self):
        s = self.s
        k = s.draw(6)
        f = self.any_file()
        self.f.add('file-system')
        if f is None or k == 0:
            return self.put('(file-exists? "@@/none")', '#f')
        if k == 1:
            return self.put('(file-exists? "%s")' % f, '#t')
        if k == 2:
            m = s.pick([0o644, 0o600, 0o755, 0o700, 0o640, 0o444, 0o777])
            self.modes[f] = m
            self.f.add('chmod')
            return '(chmod "%s" %d)' % (f, m)
        if k == 3:
            if f in self.kinds:
                return ''
            # an open port keeps working after its file is gone
            del self.files[f]
            self.modes.pop(f, None)
            self.gone.add(f)
            for v in [v for v, o in self.outs.items() if o[0] == f]:
                del self.outs[v]
            self.f.add('delete')
            return '(delete-file "%s") ' % f + self.put('(file-exists? "%s")' % f, '#f')
        if k == 4:
            self.emit('#t\n')
            return '(vf-put (equal? (getcwd) "@CWD@"))'
        x = self.modes.get(f, None)
        if x is None:
            return self.put('(access? "%s" 4)' % f, '#t')
        return self.put('(access? "%s" 1)' % f, '#t' if x & 0o111 else '#f')

    def process(self):
        s = self.s
        if 'string' in self.kinds:
            return ''
        n = s.pick([0, 1, 2, 7, 42, 127, 128, 255])
        k = s.draw(7)
        if k == 0:
            self.f.add('fork-exit')
            return self.put('(let ((pid (primitive-fork))) (if (= pid 0) (exit %d) (let ((r (waitpid pid))) (list (= pid (car r)) (cdr r) (status:exit-val (cdr r))))))' % n,
                            '(#t %d %d)' % (n << 8, n))
        if k == 1:
            self.f.add('system*')
            return self.put('(system* "sh" "-c" "exit %d")' % n, str(n << 8))
        if k == 2:
            args = [''.join(s.pick('ab c$*"\'\\') for _ in range(s.int(0, 5))) for _ in range(s.int(0, 5))]
            f = self.name('@@/sys')
            self.files[f] = ''.join('[%s]\n' % a for a in args)
            self.f.add('child-arguments')
            return self.put('(with-output-to-file "%s" (lambda () (system* "sh" "-c" "for i; do printf \'[%%s]\\\\n\' \\"$i\\"; done" "sh" %s)))' % (
                f, ' '.join(lit(a) for a in args)), '0')
        if k == 3:
            # the child writes through the same standard output, in order
            self.f.add('child-output')
            if self.kinds[-1] != 'out':
                return ''
            self.emit('hi %d\n' % n)
            return self.put('(system* "echo" "hi" "%d")' % n, '0')
        if k == 4 and self.env:
            e = s.pick(sorted(self.env))
            self.f.add('child-environment')
            f = self.name('@@/env')
            v = self.env[e]
            if e == 'VF_@' or '\n' in v:
                return ''
            self.files[f] = v + '\n'
            return self.put('(with-output-to-file "%s" (lambda () (system* "sh" "-c" "printf \'%%s\\n\' \\"$%s\\"")))' % (f, e), '0')
        if k == 5:
            self.f.add('fork-write')
            d = self.datum(1)
            if self.kinds[-1] != 'out':
                return ''
            self.emit(show(d, True, True) + '\n')
            return self.put("(let ((pid (primitive-fork))) (if (= pid 0) (begin (vf-put '%s) (exit 0)) (cdr (waitpid pid))))" % show(d, True, False), '0')
        self.f.add('execl')
        return self.put('(let ((pid (primitive-fork))) (if (= pid 0) (begin (execl "/bin/sh" (list "sh" "-c" "exit $#" "x" "1" "2")) (exit 99)) (cdr (waitpid pid))))'.replace('"sh" "-c"', '"-c"'),
                        str(2 << 8))

    def names(self):
        s = self.s
        parts = [s.pick(['a', 'bb', 'c.scm', 'x.tar.gz', '.h', '..']) for _ in range(s.int(1, 4))]
        p = ('/' if s.bool() else '') + '/'.join(parts)
        self.f.add('file-name')
        if s.bool(1, 3):
            return self.put('(basename "%s" ".scm")' % p, '"%s"' % (parts[-1][:-4] if parts[-1].endswith('.scm') else parts[-1]))
        if s.bool():
            return self.put('(basename "%s")' % p, '"%s"' % parts[-1])
        d = '/'.join(parts[:-1])
        return self.put('(dirname "%s")' % p, '"%s"' % ('/' + d if p[0] == '/' else d or '.'))

    def desc(self):
        """dup and dup2 on output descriptors."""
        s = self.s
        if not self.outs:
            return self.open_out()
        v = s.pick(sorted(self.outs))
        if s.bool():
            w = self.name('d')
            self.outs[w] = [self.outs[v][0]]
            self.f.add('dup')
            return '(define %s (dup %s))' % (w, v)
        w = s.pick(sorted(self.outs))
        self.f.add('dup2')
        self.outs[w][0] = self.outs[v][0]
        return '(dup2 %s %s)' % (v, w)

    def clock(self):
        self.f.add('clock')
        k = self.s.draw(3)
        if k == 0:
            return self.put('(let ((t (current-time))) (and (>= t @T0@) (<= t @T1@)))', '#t')
        if k == 1:
            return self.put('(let ((t (gettimeofday))) (and (>= (car t) @T0@) (<= (car t) @T1@) (>= (cdr t) 0) (< (cdr t) 1000000)))', '#t')
        return self.put('(let* ((a (get-internal-run-time)) (x (vf-junk 100)) (b (get-internal-run-time))) (and (>= a 0) (>= b a) (< (quotient b internal-time-units-per-second) 100)))', '#t')

    def loaded(self):
        """Load a file of definitions."""
        s = self.s
        f = self.name('@@/load')
        v = self.name('v')
        ds = [self.datum(1) for _ in range(s.int(1, 4))]
        t = s.pick(['', '#!\nscript\n!#\n', '; comment\n', '\n\n'])
        want = []
        for i, d in enumerate(ds):
            t += "(define %s-%d '%s)%s" % (v, i, show(d, True, False), s.pick(['\n', ' ', '\n\n;; x\n', ' #| y |# ']))
        if s.bool():
            t = t.rstrip('\n')
        self.files[f] = self.init[f] = t
        self.f.add('load')
        how = s.pick(['(load "%s")', '(primitive-load "%s")', '(include "%s")'])
        r = how % f
        for i, d in enumerate(ds):
            r += ' ' + self.put('%s-%d' % (v, i), show(d, True, True))
        return r

    def data_port(self):
        """Several data read from one port."""
        s = self.s
        ds = [self.datum() for _ in range(s.int(0, 4))]
        t = s.pick(['', ' ', '; c\n'])
        for d in ds:
            t += show(d, True, False) + s.pick([' ', '\n', ' ; x\n', '  '])
        self.f.add('read-data')
        w = '(%s)' % ' '.join(show(d, True, True) for d in ds)
        if s.bool():
            o = '(open-input-string %s)' % lit(t)
        else:
            f = self.name('@@/data')
            self.files[f] = self.init[f] = t
            o = '(open-input-file "%s")' % f
        return self.put('(let* ((p %s) %s) (list %s))' % (o, ' '.join('(x%d (read p))' % i for i in range(len(ds))),
                                                          ' '.join('x%d' % i for i in range(len(ds)))), w)


STOP = ['(car 1)', '(vf-no-such-name)', "(throw 'x 1)", '(error "boo" 1)', '("not a procedure")', '((lambda (x) x))', '(abort)', '(exit #t)',
        '(open-input-file "/nonexistent/file")', '(vector-ref (make-vector 2) 5)']


def program(s):
    """A whole run of the interpreter: command line, standard input, output and exit status."""
    f = set()
    out = []
    main = s.bool(1, 4)
    stdin = ''.join(s.pick('abc\n x') for _ in range(s.int(0, 12))) if s.bool(1, 2) else ''
    how = s.pick(['file', 'file', '-s', '-', 'stdin', '-c'])
    args = [s.pick(['a', '-x', '--y', 'b c', '', '-s', '-e', '--', 'x"y', '-L', '1', '(foo)']) for _ in range(s.int(0, 4))]
    opts = []
    lib = None
    if how in ('file', '-'):                    # there a -- separates the arguments and is dropped; scripts/mescc relies on it
        args = [a for a in args if a != '--']
    if how != 'stdin' and s.bool(1, 4):
        opts += ['--no-auto-compile']
    if s.bool(1, 4):
        opts += s.pick([['-C', 'cc'], ['--compiled-path=cc']])
    t = ''
    cl = {'file': ['@F@'], '-s': ['@F@'], '-': ['-'], '-c': ['@MES@']}.get(how)
    if how == 'stdin':
        args = []
    if s.bool(1, 4) and how != '-c':
        f.add('load-path')
        lib = {'l/my/mod.mes': '(display "mod\n") (define mod-x %d)\n' % s.int(0, 99)}
        opts += s.pick([['-L', 'l'], ['--load-path=l']])
        t += '(include-from-path "my/mod.mes") (write mod-x) (newline)\n'
        out.append('mod\n' + lib['l/my/mod.mes'].split()[-1][:-1] + '\n')
    if main and how in ('file', '-s', '-'):
        opts += s.pick([['-e', '(hello)'], ['--main=(hello)']])
    else:
        main = False
    pos = 0
    done = None
    for _ in range(s.int(0, 6)):
        k = s.draw(8)
        if k == 0 and cl:
            f.add('command-line')
            t += '(write (command-line)) (newline)\n'
            out.append('(%s)\n' % ' '.join(show(['s', a], True, False) for a in cl + args))
        elif k <= 2:
            n = s.int(-9, 99)
            t += '(display %d)' % n
            out.append(str(n))
        elif k == 3 and how in ('file', '-s', '-c'):
            f.add('standard-input')
            t += '(write (char->integer (read-char 0))) (newline)\n'
            out.append('%d\n' % (ord(stdin[pos]) if pos < len(stdin) else -1))
            pos += pos < len(stdin)
        elif k == 4:
            t += '(define (f x) (if (= x 0) 0 (+ x (f (- x 1))))) (display (f 10))\n'
            out.append('55')
        elif k == 5 and s.bool(1, 2):
            n = s.pick([0, 1, 2, 3, 77, 127, 128, 255, 256, 300, -1])
            t += '(exit %d)\n' % n
            done = n & 255
            f.add('exit')
            break
        elif k == 6 and s.bool(1, 3):
            e = s.pick(STOP)
            t += e + '\n'
            done = 'fail'
            f.add('error')
            break
    if main and done == 'fail':
        main = False
    if done is not None:
        t += ' (display "after")'
        main = False
    if main:
        d = s.pick([None, 5])
        t += "\n(define-module (hello)) (define (main args) (write (cons 'main args)) %s)\n" % ('(exit %d)' % d if d else '')
        if done is None:
            out.append('(main %s)' % ' '.join(show(['s', a], True, False) for a in cl + args))
            done = d
            f.add('main')
    if s.bool(1, 4):
        t = '#! /bin/sh\nexec mes\n!#\n' + t if how != '-c' else t
    if how == '-c' and not t:
        t = '1'
    f.add('run-' + how)
    argv = opts + {'file': ['@F@'], '-s': ['-s', '@F@'], '-': ['-'], 'stdin': [], '-c': ['-c', t]}[how] + args
    return {'argv': argv, 'text': t, 'stdin': t if how in ('-', 'stdin') else stdin, 'want': ''.join(out), 'rc': done or 0, 'lib': lib or {}, 'f': sorted(f)}


class S10(pbt.Check):
    id = 'S10'
    quick = 14000
    thorough = 200000
    batch = 24
    quick_s = 22
    rule = ('a case is one generated program of port, file, environment and process operations run in a scratch directory; its output and the '
            'files it leaves (content, mode, absence) are compared with a model; non-trivial = it uses at least two kinds of operation')
    assumptions = ['a file port has one character of push-back (the library says so and stops the program otherwise)',
                   'redirections are left by returning, not by a throw (S08 records what a throw does to dynamic-wind)']

    def prepare(self):
        self.mes = scheme.Mes(modules=['(mes guile)'], prelude=SHARED, stack=400000)

    def gen(self, src):
        if src.bool(1, 10):
            return program(src)
        g = G(src)
        body = ' '.join(x for x in (g.stmt(3) for _ in range(src.length(1, 16))) if x)
        return {'body': body, 'want': ''.join(g.sinks[0]), 'init': g.init, 'files': g.files, 'modes': {f: m for f, m in g.modes.items() if f in g.files},
                'gone': sorted(g.gone - set(g.files)), 'f': sorted(g.f)}

    def classify(self, c):
        return len(c['f']) >= 2, c['f']

    def sample(self, c):
        if 'argv' in c:
            return {'argv': c['argv'], 'program': c['text'][:400], 'features': c['f']}
        return {'program': c['body'][:600], 'features': c['f']}

    def run_program(self, c, scratch):
        d = os.path.join(os.path.realpath(scratch), 'prog')
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        for n, t in list(c['lib'].items()) + [('p.scm', c['text'])]:
            n = os.path.join(d, n)
            os.makedirs(os.path.dirname(n), exist_ok=True)
            with open(n, 'w') as f:
                f.write(t)
        rc, o, e = scheme.run_proc([self.mes.exe] + [a.replace('@F@', 'p.scm') for a in c['argv']], self.mes.env, d, 20, c['stdin'].encode())
        left = sorted(set(os.listdir(d)) - {'l', 'p.scm'})
        shutil.rmtree(d, ignore_errors=True)
        o = o.decode('latin1')
        want = c['want'].replace('@F@', 'p.scm').replace('@MES@', self.mes.exe)
        if rc == 'timeout':
            return {'tag': 'hang', 'got': o[-300:], 'want': want}
        if o != want:
            return {'tag': 'program-output', 'got': o, 'want': want, 'stderr': e.decode('latin1')[-300:]}
        if c['rc'] == 'fail' and not (rc != 0 and (e or "(abort)" in c["text"])):
            return {'tag': 'status', 'got': rc, 'want': 'failure and a message', 'stderr': e.decode('latin1')[-300:]}
        if c['rc'] != 'fail' and (rc != c['rc'] or e):
            return {'tag': 'status', 'got': rc, 'want': c['rc'], 'stderr': e.decode('latin1')[-300:]}
        if left:
            return {'tag': 'files-left', 'got': left}
        return None

    def run(self, cases, scratch):
        prog = [c for c in cases if 'argv' in c]
        if prog:
            rest = iter(self.run_batch([c for c in cases if 'argv' not in c], scratch))
            return [self.run_program(c, scratch) if 'argv' in c else next(rest) for c in cases]
        return self.run_batch(cases, scratch)

    def run_batch(self, cases, scratch):
        if not cases:
            return []
        cwd = os.path.realpath(scratch)
        bodies = []
        t0 = int(time.time())
        for k, c in enumerate(cases):
            d = 'c%d' % k
            shutil.rmtree(os.path.join(cwd, d), ignore_errors=True)
            os.mkdir(os.path.join(cwd, d))
            for n, t in c['init'].items():
                with open(os.path.join(cwd, n.replace('@@', d)), 'wb') as f:
                    f.write(t.encode('latin1'))
            bodies.append(c['body'].replace('@@', d).replace('@CWD@', cwd).replace('@T0@', str(t0)).replace('@T1@', str(t0 + 60)))
        rc, o, e = self.mes.run_text(self.mes.text(bodies, True), scratch, timeout=20)
        got = scheme.split_output(o, len(bodies))
        if rc != 0 or any(g is None for g in got):
            for k in range(len(cases)):
                shutil.rmtree(os.path.join(cwd, 'c%d' % k), ignore_errors=True)
            if len(cases) == 1:
                return [{'tag': 'died', 'got': {'died': str(rc), 'stdout': o.decode('latin1')[-500:], 'stderr': e.decode('latin1')[-700:]},
                         'want': cases[0]['want']}]
            first = next((k for k, g in enumerate(got) if g is None), len(cases) // 2)      # everything before it ran to its end
            parts = [cases[:first], cases[first:first + 1], cases[first + 1:]] if rc == 0 or got[first] is None else [cases[:first], cases[first:]]
            self.deaths = getattr(self, 'deaths', 0) + 1
            if self.deaths > 40:
                return [{'skip': True}] * len(cases)
            return [r for p in parts if p for r in self.run_batch(p, scratch)]
        out = []
        for k, (c, g) in enumerate(zip(cases, got)):
            w = c['want'].replace('@@', 'c%d' % k)
            out.append({'tag': 'output', 'got': g, 'want': w} if g != w else self.compare(c, cwd, 'c%d' % k))
            shutil.rmtree(os.path.join(cwd, 'c%d' % k), ignore_errors=True)
        return out

    def compare(self, c, cwd, d):
        want = {n.replace('@@/', ''): t for n, t in c['files'].items()}
        have = {}
        for n in os.listdir(os.path.join(cwd, d)):
            with open(os.path.join(cwd, d, n), 'rb') as f:
                have[n] = f.read().decode('latin1')
        if have != want:
            diff = sorted(n for n in set(have) | set(want) if have.get(n) != want.get(n))
            return {'tag': 'files', 'got': {n: have.get(n) for n in diff}, 'want': {n: want.get(n) for n in diff}}
        for n, m in c['modes'].items():
            got = os.stat(os.path.join(cwd, n.replace('@@', d))).st_mode & 0o777
            if got != m:
                return {'tag': 'mode', 'got': oct(got), 'want': oct(m), 'file': n}
        return None


if __name__ == '__main__':
    pbt.main(S10())
