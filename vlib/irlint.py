# A small reader of textual LLVM IR, for the rules that are queries over instructions (no value analysis needed).
import re, os, subprocess
from . import run, stage as st

DEF = re.compile(r'^\s+(?:(%[\w.$-]+) = )?(?:tail |musttail |notail )?(\w+)(.*)$')
LOC = re.compile(r'%[\w.$-]+')

class Ins:
    __slots__ = ('res', 'op', 'text', 'block', 'dbg')

class Fn:
    def __init__(s, name, head):
        s.name = name; s.head = head; s.ins = []; s.defs = {}
    def calls(s):
        for i in s.ins:
            if i.op in ('call', 'invoke'): yield i

class Mod:
    def __init__(s, text):
        s.fns = {}; s.globals = {}; s.meta = {}; s.decls = set(); s.aliases = {}
        f = None; blk = ''; pend = None
        for l in text.split('\n'):
            if f is None:
                if l.startswith('define'):
                    m = re.search(r'@("[^"]+"|[\w.$-]+)\(', l); f = Fn(m.group(1).strip('"'), l); s.fns[f.name] = f; blk = 'entry'
                elif l.startswith('declare'):
                    m = re.search(r'@("[^"]+"|[\w.$-]+)\(', l); s.decls.add(m.group(1).strip('"'))
                elif l.startswith('@'):
                    m = re.match(r'@("[^"]+"|[\w.$-]+) = (.*)', l)
                    (s.aliases if re.search(r'\balias\b', m.group(2)) else s.globals)[m.group(1).strip('"')] = m.group(2)
                elif l.startswith('!'):
                    m = re.match(r'(![\w.]+) = (.*)', l)
                    if m: s.meta[m.group(1)] = m.group(2)
                continue
            if l == '}': f = None; continue
            m = re.match(r'^([\w.$-]+):', l)
            if m: blk = '%' + m.group(1); continue
            m = DEF.match(l)
            if not m: continue
            if m.group(1) is None and m.group(2) in ('to', 'cleanup', 'catch', 'filter') : # continuation of invoke / landingpad
                if f.ins: f.ins[-1].text += ' ' + l.strip()
                continue
            if m.group(1) is None and l.lstrip().startswith(('i32 ', 'i64 ', 'i8 ', 'i16 ', ']')): # switch table
                if f.ins: f.ins[-1].text += ' ' + l.strip()
                continue
            i = Ins(); i.res, i.op, i.text, i.block = m.group(1), m.group(2), l.strip(), blk
            d = re.search(r'!dbg (!\d+)', l); i.dbg = d.group(1) if d else None
            f.ins.append(i)
            if i.res: f.defs[i.res] = i
    def where(s, i):
        """file:line of an instruction, innermost inlined scope"""
        if not i.dbg:
            for f in s.fns.values():
                if i in f.ins:
                    for j in f.ins[f.ins.index(i):]:
                        if j.dbg: i = j; break
                    break
        m = s.meta.get(i.dbg or '', '')
        ln = re.search(r'line: (\d+)', m); sc = re.search(r'scope: (!\d+)', m)
        name = file = ''
        k = sc.group(1) if sc else None
        for _ in range(20):
            t = s.meta.get(k or '', '')
            fm = re.search(r'file: (!\d+)', t)
            if fm and not file:
                x = re.search(r'filename: "([^"]*)"', s.meta.get(fm.group(1), '')); file = x.group(1) if x else ''
            if 'DISubprogram' in t:
                x = re.search(r'name: "([^"]*)"', t); name = x.group(1) if x else ''; break
            x = re.search(r'scope: (!\d+)', t)
            if not x: break
            k = x.group(1)
        file = re.sub(r'.*nsimd-stage-[^/]*/', '', file); file = re.sub(r'^.*?(include/nsimd|src)/', r'\1/', file)
        return '%s:%s: %s' % (file, ln.group(1) if ln else '?', name)

def compile_ir(ext, tree, src, work, tag, lang='c++', std=None, opt='-O1', extra=(), cwd=None):
    o = os.path.join(work, tag + '.ll')
    cmd = ['clang++-18' if lang == 'c++' else 'clang-18'] + run.target_flags(ext) + (['-U__clang__'] if lang == 'c' else ['-include', os.path.join(st.VERIF, 'spec', 'pre.hpp')]) + [opt, '-w', '-I' + os.path.join(tree, 'include'), '-I' + os.path.join(tree, 'src'), '-S', '-emit-llvm', src, '-o', o] + run.COMMON + ([std] if std else []) + list(extra)
    rc, out = run.sh(cmd)
    if rc: raise st.CheckError('%s does not compile for %s:\n%s' % (src, ext.name, out[:2500]))
    m = Mod(open(o).read()); os.remove(o)
    return m

# ------------------------------------------------------------------ sizes and indices keep their 64 bits
def bounded(f, v, depth=0):
    """True when the 64-bit value is visibly small (so that narrowing it loses nothing)"""
    if not v.startswith('%'): return True
    d = f.defs.get(v)
    if d is None or depth > 8: return False
    if d.op in ('and', 'urem', 'srem'): return bool(re.search(r', \d{1,9}(,|$| )', d.text))
    if d.op in ('zext', 'sext'): return True
    if d.op in ('lshr', 'ashr'):
        m = re.search(r', (\d+)(,|$| )', d.text); return bool(m) and int(m.group(1)) >= 33
    if d.op in ('select', 'phi', 'add', 'sub', 'freeze', 'shl', 'mul'):
        return all(bounded(f, x, depth + 1) for x in LOC.findall(d.text.split('=', 1)[1].split('!dbg')[0]) if not f.defs.get(x) or f.defs[x].op != 'icmp') if d.op in ('select', 'freeze') else False
    return False

def narrow_loop_counter(f, v):
    """the value is a narrower loop-carried counter, widened (possibly after adding something)"""
    d = f.defs.get(v); k = 0
    while d is not None and d.op in ('add', 'sub', 'sext', 'zext') and k < 6:
        ops = LOC.findall(d.text.split('=', 1)[1].split('!dbg')[0])
        if d.op in ('sext', 'zext'):
            m = re.search(r'(?:sext|zext)(?: nneg)? i(\d+) (%[\w.$-]+) to i64', d.text)
            if not m or int(m.group(1)) == 1: return None
            w = d; x = m.group(2); seen = set(); st_ = [x]
            while st_:
                y = st_.pop()
                if y in seen: continue
                seen.add(y); e = f.defs.get(y)
                if e is None: continue
                if e.op == 'phi':
                    # loop carried: reaches itself through additions
                    q = [o for o in LOC.findall(re.sub(r', %[\w.$-]+ \]', ' ]', e.text.split('=', 1)[1]))]; s2 = set()
                    while q:
                        z = q.pop()
                        if z == e.res: return w
                        if z in s2: continue
                        s2.add(z); g = f.defs.get(z)
                        if g is not None and g.op in ('add', 'sub', 'phi'): q += LOC.findall(re.sub(r', %[\w.$-]+ \]', ' ]', g.text.split('=', 1)[1].split('!dbg')[0]))
                elif e.op in ('add', 'sub'): st_ += LOC.findall(e.text.split('=', 1)[1].split('!dbg')[0])
            return None
        nx = [o for o in ops if o in f.defs]
        if len(nx) == 0: return None
        r = None
        for o in nx:
            r = r or narrow_loop_counter(f, o)
        return r
    return None

def narrowings(f):
    """instructions that narrow a 64-bit size or index (that is not visibly small), or count to it in fewer bits"""
    out = []; n = 0
    # values computed from the 64-bit parameters (data loaded from memory may be packed in 64-bit words)
    taint = set('%' + x for x in re.findall(r'i64 [^,)]*?%([\w.$-]+)[,)]', f.head)); ch = True
    while ch:
        ch = False
        for i in f.ins:
            if i.res and i.res not in taint and i.op in ('add', 'sub', 'mul', 'phi', 'select', 'zext', 'sext', 'trunc', 'shl', 'freeze', 'call', 'or') and any(x in taint for x in LOC.findall(re.sub(r', %[\w.$-]+ \]', ' ]', i.text.split('=', 1)[1].split('!dbg')[0]))):
                if i.op == 'call' and not re.search(r'@llvm\.[su](min|max)', i.text): continue
                taint.add(i.res); ch = True
    for i in f.ins:
        if i.op == 'trunc':
            m = re.search(r'trunc i64 (%[\w.$-]+) to i(\d+)', i.text)
            if m and int(m.group(2)) > 1 and m.group(1) in taint:
                n += 1
                if not bounded(f, m.group(1)): out.append((i, 'a 64-bit size or index is truncated to %s bits' % m.group(2)))
        if i.op == 'icmp':
            m = re.search(r'icmp \w+ i64 (\S+), (\S+?)(,|$| )', i.text)
            if m:
                n += 1
                for a, b in ((m.group(1), m.group(2)), (m.group(2), m.group(1))):
                    if a.startswith('%') and b.startswith('%') and narrow_loop_counter(f, a): out.append((i, 'a loop counter narrower than 64 bits is compared with a 64-bit size'))
    return out, n
