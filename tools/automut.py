#!/usr/bin/env python3
"""automut.py N SEED [file...] : random single-token mutants of the library, each judged by the quick checks that own the file
(authoring helper; survivors are printed and examined by hand). Works on copies under /tmp/am."""
import sys, os, re, json, random, subprocess, shutil, hashlib, concurrent.futures, threading
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
import check
W = '/tmp/am'
REPO = os.environ.get('AM_REPO', '/repo')
OWN = {
    'integer_cast.hpp': 'C09', 'intrusive_heap.hpp': 'C14 C16', 'intrusive_list.hpp': 'C14 C17', 'streams.hxx': 'C12 C13', 'streams.hpp': 'C12 C13',
    'util.hxx': 'C15 C11', 'util.hpp': 'C15 C11 C06', 'crypto/base64.hxx': 'C11', 'crypto/md5.hxx': 'C10', 'crypto/sha1.hxx': 'C10', 'crypto/crc32.hxx': 'C10',
    'http/request_parser.hxx': 'C02 C03 C05 C01', 'http/request_parser.hpp': 'C02 C03 C05 C01', 'http/response_parser.hxx': 'C02 C03 C01', 'http/response_parser.hpp': 'C02 C03 C01',
    'http/query_parser.hxx': 'C07 C08 C01', 'http/query_parser.hpp': 'C07 C08 C01', 'http/types.hxx': 'C04 C02 C24 C25 C07', 'http/web_message_parser.hxx': 'C06 C27', 'http/web_message_parser.hpp': 'C06 C27 C01',
    'http/connection.hxx': 'C27 C26 C29 C24 C25 C30 C18 C19 C28', 'http/connection.hpp': 'C27 C26 C29 C24 C25 C30 C18 C19', 'http/server.hxx': 'C24 C29 C30 C28 C26', 'http/client_request.hxx': 'C25 C19',
    'network.hxx': 'C16 C17 C20 C21 C23 C19', 'network_posix.hxx': 'C18 C22 C30 C28 C20 C17 C19', 'network_posix_win.hxx': 'C23 C21',
}
SKIP = re.compile(r'^\s*(//|#|\*|namespace|template|using|typedef|class |struct |public:|private:|enum|static const|friend|\}|\{)|CRAB_INLINE|push_record|std::cout|<<  |stats\.')
OPS = [(r' == ', ' != '), (r' != ', ' == '), (r' < ', ' <= '), (r' <= ', ' < '), (r' > ', ' >= '), (r' >= ', ' > '), (r' && ', ' || '), (r' \|\| ', ' && '), (r' \+ ', ' - '), (r' - ', ' + '),
       (r'\+= ', '-= '), (r'-= ', '+= '), (r'\btrue\b', 'false'), (r'\bfalse\b', 'true'), (r'!(?=[a-z_(])', ''), (r' & ', ' | '), (r'<< ', '>> '), (r'>> ', '<< '), (r'\+\+', '--'),
       (r'\bbreak;', 'continue;'), (r'\bcontinue;', 'break;'), (r'(?<![\w.\'"])(\d+)(?![\w.\'"])', None), (r'\b0x[0-9a-fA-F]+\b', 'HEX'), (r"'(.)'", 'CHAR')]

def excluded(lines):
    """lines inside #if branches that are not compiled here"""
    off, st = set(), []
    for i, l in enumerate(lines):
        s = l.strip()
        if re.match(r'#\s*if', s):
            dead = any(k in s for k in ('KEVENT', 'WINDOWS', 'LIBEV', 'MACH', '_WIN32', 'IMPL_CF', 'IMPL_BOOST', 'CRAB_TLS', 'BIG_ENDIAN')) and 'EPOLL' not in s and not s.startswith('#if !')
            st.append(dead)
        elif re.match(r'#\s*elif', s) and st:
            st[-1] = 'EPOLL' not in s and '__linux__' not in s
        elif re.match(r'#\s*else', s) and st:
            st[-1] = not st[-1]
        elif re.match(r'#\s*endif', s) and st:
            st.pop()
        if any(st):
            off.add(i)
    return off

def mutants(fn):
    lines = open(REPO + '/include/crab/' + fn).read().split('\n')
    off = excluded(lines)
    r = []
    for i, l in enumerate(lines):
        if i in off or SKIP.search(l) or not l.strip():
            continue
        code = l.split('//')[0]
        if re.match(r'^\t+[A-Za-z_].*;\s*$', code) and not re.match(r'^\s*(return|throw|case|default|auto|const|size_t|int|uint\w+|std::\w+ \w|bool|break|continue)', code):
            r.append((i, re.match(r'^\t+', code).group() + ';'))
        if re.match(r'^\t+(return|throw) ?.*;\s*$', code) and 'throw' in code:
            r.append((i, re.match(r'^\t+', code).group() + ';'))
        m = re.match(r'^(\t+(?:\} else )?(?:if|while) )\((.*)\)( \{)?\s*$', code)
        if m:
            r.append((i, '%s(!(%s))%s' % (m.group(1), m.group(2), m.group(3) or '')))
        for a, b in OPS:
            for m in re.finditer(a, code):
                if code[:m.start()].count('"') % 2:
                    continue
                t = b
                if b is None:
                    t = str(int(m.group(1)) + random.choice([1, -1] if int(m.group(1)) else [1]))
                elif b == 'HEX':
                    t = hex(int(m.group(), 16) ^ (1 << random.randrange(0, max(1, int(m.group(), 16).bit_length()))))
                elif b == 'CHAR':
                    t = "'%s'" % chr((ord(m.group(1)) + 1) % 127) if m.group(1).isalnum() else "'x'"
                r.append((i, code[:m.start()] + t + code[m.end():]))
    return [(fn, i, lines[i], n) for i, n in r if n != lines[i]]

def cc(src, flags, inc, obj):
    r = subprocess.run([check.CXX, '-std=gnu++14', *flags, '-w', '-DCRAB_COMPILE=1', '-I', inc, '-I', check.H, '-c', src, '-o', obj], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    return r.returncode == 0
LOCK = {}
GL = threading.Lock()
def clean_objs(pid, inc, tag, hpp):
    p = check.CONF['props'][pid]
    san = p.get('san', 'asan')
    flags = check.SAN[san] + p.get('flags', [])
    objs = []
    for s in [check.H + '/pbt_main.cpp', check.H + '/props/' + p['src']] + [check.H + '/' + e for e in p.get('extra', [])]:
        own = hpp and 'pbt_main' not in s
        o = '%s/%s.o' % (tag if own else W, hashlib.md5((s + ' '.join(flags)).encode()).hexdigest())
        with GL:
            lk = LOCK.setdefault(o, threading.Lock())
        with lk:
            if not os.path.exists(o):
                if not cc(s, flags, inc if own else REPO + '/include', o):
                    return None
        objs.append(o)
    return objs, flags, san

def judge(m):
    fn, i, old, new = m
    d = W + '/' + hashlib.md5(repr(m).encode()).hexdigest()[:12]
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    try:
        shutil.copytree(REPO + '/include', d + '/include'); shutil.copytree(REPO + '/src', d + '/src')
        p = d + '/include/crab/' + fn
        ls = open(p).read().split('\n'); ls[i] = new
        open(p, 'w').write('\n'.join(ls))
        libs = {}
        pids = OWN[fn].split()
        for pid in pids:
            x = clean_objs(pid, d + '/include', d, fn.endswith('.hpp'))
            if not x:
                return m, 'nocompile'
            objs, flags, san = x
            if san not in libs:
                libs[san] = d + '/lib-' + san + '.o'
                if not cc(d + '/src/crab.cpp', check.SAN[san], d + '/include', libs[san]):
                    return m, 'nocompile'
            q = check.CONF['props'][pid]
            exe = d + '/' + pid
            wr = ['-Wl,--wrap=' + w for w in check.CONF['wraps'].get(q.get('wrap', ''), [])]
            r = subprocess.run([check.CXX, *flags, libs[san], *objs, *wr, '-lpthread', '-o', exe], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
            if r.returncode:
                return m, 'nocompile'
            cmd = [exe, '--seed', '1', '--start', '0', '--stride', '1', '--cases', str(q['quick']['cases'] // 2), '--wall', '100', '--out', d + '/o.json', '--replay-dir', d, '--stop-file', d + '/stop',
                   '--batch', str(q['quick'].get('batch', q.get('batch', 0))), '--shrink-s', '0', '--shrink-runs', '1', '--cpu-limit', '10', '--wall-limit', '60']
            try:
                r = subprocess.run(cmd, env=check.ENV, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=300)
            except subprocess.TimeoutExpired:
                return m, 'killed %s (timeout)' % pid
            if r.returncode:
                return m, 'killed %s' % pid
        return m, 'SURVIVED ' + ' '.join(pids)
    finally:
        shutil.rmtree(d, ignore_errors=True)

if __name__ == '__main__':
    n, seed, files = int(sys.argv[1]), int(sys.argv[2]), sys.argv[3:] or list(OWN)
    par = int(os.environ.get('PAR', '4'))
    random.seed(seed)
    jobs = []
    for f in files:
        ms = mutants(f)
        random.shuffle(ms)
        jobs += ms[:n]
    random.shuffle(jobs)
    jobs = jobs[int(os.environ.get('SKIP', '0')):]
    print(len(jobs), 'mutants', flush=True)
    with concurrent.futures.ThreadPoolExecutor(par) as ex:
        for m, v in ex.map(judge, jobs):
            print('%s | %s:%d | %s => %s' % (v, m[0], m[1] + 1, m[2].strip(), m[3].strip()), flush=True)
