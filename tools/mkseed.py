"""Development tool: mk(id, prop, needs, breaks, [(file, old, new)...], demo_c) writes seeded/<id>."""
import os, subprocess, tempfile, json, shutil
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SH = '''#!/bin/bash
# Runs in the repository after a build; everything it writes is under a scratch directory.
d=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d) || exit 99
trap 'rm -rf "$t"' EXIT
gcc -w -std=gnu11 -O1 -I. -I"$d" %s -o "$t/demo" "$d/demo.c" %s -lcrypto -lpthread || exit 98
export OPENSSL_ENGINES=$PWD/_build/bin OPENSSL_CONF=/dev/null
cd "$t"
timeout 250 ./demo
'''
H = '''#define OPENSSL_SUPPRESS_DEPRECATED
#include <openssl/evp.h>
#include <openssl/engine.h>
#include <openssl/err.h>
#include <openssl/rand.h>
#include <openssl/bn.h>
#include <openssl/ec.h>
#include <openssl/x509.h>
#include <openssl/objects.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
static ENGINE *E;
static void gost(void)
{
    ENGINE_load_builtin_engines();
    E = ENGINE_by_id("gost");
    if (!E || !ENGINE_init(E) || !ENGINE_set_default(E, ENGINE_METHOD_ALL)) { ERR_print_errors_fp(stderr); exit(97); }
}
#define CIPHER(sn) ENGINE_get_cipher(E, OBJ_sn2nid(sn))
#define DIGEST(sn) ENGINE_get_digest(E, OBJ_sn2nid(sn))
#define NEED(c) do { if (!(c)) { printf("line %d: %s\\n", __LINE__, #c); exit(1); } } while (0)
static void pat(unsigned char *p, size_t n, unsigned s) { for (size_t i = 0; i < n; i++) { s = s * 1103515245u + 12345; p[i] = s >> 16; } }
'''
def mk(id, prop, needs, breaks, edits, demo, cflags='', libs='', sh=None):
    d = os.path.join(V, 'seeded', id)
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    t = tempfile.mkdtemp()
    try:
        subprocess.check_call(['git', '-C', '/repo', 'worktree', 'list'], stdout=subprocess.DEVNULL)
        subprocess.check_call('git -C /repo archive HEAD | tar -x -C %s' % t, shell=True)
        subprocess.check_call('cd %s && git init -q && git add -A -f && git -c user.name=x -c user.email=x commit -qm x' % t, shell=True)
        for f, old, new in edits:
            p = os.path.join(t, f)
            s = open(p, encoding='utf-8', errors='surrogateescape').read()
            assert s.count(old) == 1, (f, old, s.count(old))
            open(p, 'w', encoding='utf-8', errors='surrogateescape').write(s.replace(old, new))
        open(os.path.join(d, 'patch.diff'), 'wb').write(subprocess.check_output(['git', '-C', t, 'diff']))
    finally:
        shutil.rmtree(t)
    open(os.path.join(d, 'demo.h'), 'w').write(H)
    if demo: open(os.path.join(d, 'demo.c'), 'w').write('#include "demo.h"\n' + demo)
    if sh is None:
        sh = SH % (cflags, libs)
    open(os.path.join(d, 'demo.sh'), 'w').write(sh)
    os.chmod(os.path.join(d, 'demo.sh'), 0o755)
    json.dump({'property': prop, 'needs': needs, 'what_it_breaks': breaks}, open(os.path.join(d, 'meta.json'), 'w'), indent=1)
