"""Development tool: write /verif/seeded/<id>/ from edits. mkbug(id, prop, needs, breaks, [(file, old, new)], files)"""
import json, os, subprocess
BW = "/var/tmp/bw"
RUN = '''#!/bin/bash
# Run with cwd = the repository. Compiles a small program against the repository's sources in a scratch directory.
here="$(cd "$(dirname "$0")" && pwd)"
repo="$PWD"
w="$(mktemp -d /tmp/demo.XXXXXX)"
trap 'rm -rf "$w"' EXIT
export REPO="$repo" HERE="$here" W="$w"
compile() {  # one source, quietly
    g++ -std=c++17 -O1 -w -DNDEBUG -DFMT_DEPRECATED_OSTREAM %(flags)s -I"$HERE" -I"$REPO" -I"$W/gen" -isystem /usr/include/eigen3 -c "$1" -o "$W/$(echo "$1" | tr / _).o" || exit 3
}
export -f compile
%(pre)s
( for s in %(srcs)s; do echo "$repo/$s"; done; ls "$w"/gen/core/ekf/*.cxx 2>/dev/null; echo "$here/demo.cpp" ) | xargs -P 8 -I{} bash -c 'compile {}' || exit 3
g++ %(flags)s "$w"/*.o -o "$w/demo" -lyaml-cpp -lfmt -lstdc++fs -ldl -lpthread || exit 3
cd "$w" && timeout 120 ./demo "$w" > out.txt 2>&1
rc=$?
tail -n 5 out.txt
exit $rc
'''
LOGSRC = "common/check.cxx common/print.cxx common/quantized_time.cxx common/utctime.cxx common/ephemeris/galileo.cxx common/ephemeris/glonass.cxx common/ephemeris/gps.cxx common/logging/log_format.cxx common/logging/log_reader.cxx common/logging/log_writer.cxx common/logging/serialize.cxx utils/crc.cxx utils/progress_bar.cxx utils/split_string.cxx utils/strip_string.cxx utils/wgs84.cxx third_party/backward/backward.cxx"

def mkbug(id, prop, needs, breaks, edits, demo, srcs=LOGSRC, flags="", pre="", extra={}):
    subprocess.run("git -C %s fetch -q origin && git -C %s reset -q --hard origin/main" % (BW, BW), shell=True, check=True)
    for f, old, new in edits:
        p = os.path.join(BW, f)
        s = open(p).read()
        assert s.count(old) == 1, (id, f, s.count(old), old)
        open(p, "w").write(s.replace(old, new))
    d = os.environ.get("SEEDED", "/verif/seeded") + "/" + id
    os.makedirs(d, exist_ok=True)
    diff = subprocess.run(["git", "-C", BW, "diff"], stdout=subprocess.PIPE, text=True).stdout
    assert diff
    open(d + "/patch.diff", "w").write(diff)
    open(d + "/demo.cpp", "w").write(demo)
    open(d + "/demo.sh", "w").write(RUN % dict(srcs=srcs, flags=flags, pre=pre))
    for n, t in extra.items():
        os.makedirs(os.path.dirname(d + "/" + n), exist_ok=True)
        open(d + "/" + n, "w").write(t)
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(d + "/meta.json", "w"), indent=1)
    subprocess.run(["git", "-C", BW, "checkout", "-q", "--", "."], check=True)
