"""Development tool: mkseed(id, prop, [(file, old, new)...], needs, breaks, demo C++ text) writes /verif/seeded/<id>."""
import json, os, subprocess, re
REPO = os.environ.get('MX_REPO', '/repo')
SRC = REPO + '/Sourcecode/private/mx/'
DEMO = r'''#!/bin/bash
# run in /repo after the build; exit 0 when the property holds on this scenario
D=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d) || exit 2
trap 'rm -rf "$T"' EXIT
S=$PWD/Sourcecode
g++ -std=c++17 -w -O0 -include cstdint -pthread -I$S/include -I$S/private -I$S/private/mx/ezxml/src/include -I$S/private/mx/ezxml/src/private "$D/demo.cpp" $PWD/_build/libmx.a -o "$T/demo" || exit 2
cd "$T" && timeout 120 ./demo >"$T/out" 2>&1
R=$?
tail -5 "$T/out"
exit $R
'''
HEAD = r'''#include "mx/api/DocumentManager.h"
#include "mx/api/ScoreData.h"
#include "mx/core/Document.h"
#include "ezxml/XFactory.h"
#include <sstream>
#include <iostream>
#include <fstream>
#include <cstdlib>
using namespace mx::api;
#define CHECK(x) do { if(!(x)) { std::cerr << "FAILED: " #x << " line " << __LINE__ << "\n"; std::exit(1); } } while(0)
static DocumentManager& dm() { return DocumentManager::getInstance(); }
static int load(const std::string& x) { std::istringstream is(x); return dm().createFromStream(is); }
static std::string text(int id) { std::ostringstream os; dm().writeToStream(id, os); return os.str(); }
static std::string part1(const std::string& measures, const std::string& list = "<score-part id=\"P1\"><part-name>a</part-name></score-part>")
{ return "<?xml version=\"1.0\"?><score-partwise version=\"3.0\"><part-list>" + list + "</part-list><part id=\"P1\">" + measures + "</part></score-partwise>"; }
static std::string roundText(const ScoreData& s) { int id = dm().createFromScore(s); auto t = text(id); dm().destroyDocument(id); return t; }
static ScoreData round(const ScoreData& s) { int id = load(roundText(s)); auto r = dm().getData(id); dm().destroyDocument(id); return r; }
static ScoreData read(const std::string& x) { int id = load(x); auto r = dm().getData(id); dm().destroyDocument(id); return r; }
'''


def mkseed(sid, prop, edits, needs, breaks, demo, head=True):
    d = '/verif/seeded/' + sid
    os.makedirs(d, exist_ok=True)
    assert not subprocess.run(['git', '-C', REPO, 'status', '--porcelain'], capture_output=True, text=True).stdout.strip(), 'repo dirty'
    paths = {f if f.startswith('/') else SRC + f for f, _, _ in edits}
    times = {p: os.stat(p) for p in paths}
    try:
        for f, old, new in edits:
            p = f if f.startswith('/') else SRC + f
            s = open(p, newline='').read()
            if '\r\n' in s: old, new = old.replace('\n', '\r\n'), new.replace('\n', '\r\n')
            assert s.count(old) == 1, (f, s.count(old), old)
            open(p, 'w', newline='').write(s.replace(old, new))
        diff = subprocess.run(['git', '-C', REPO, 'diff'], capture_output=True).stdout
    finally:
        subprocess.run(['git', '-C', REPO, 'checkout', '-q', '--', '.'], check=True)
        # as if untouched, so that nothing is rebuilt for it
        for p, t in times.items(): os.utime(p, ns=(t.st_atime_ns, t.st_mtime_ns))
    open(d + '/patch.diff', 'wb').write(diff)
    open(d + '/demo.sh', 'w').write(DEMO)
    open(d + '/demo.cpp', 'w').write((HEAD if head else '') + demo)
    json.dump({'property': prop, 'needs': needs, 'what_it_breaks': breaks}, open(d + '/meta.json', 'w'), indent=1)
    print('wrote', sid)
