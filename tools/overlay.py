"""The protox crate cannot be built in /repo (its protobuf submodule is empty). Copy its current
sources and the well-known .proto files into build/overlay and build the harness against that."""
import filecmp, os, re, shutil, subprocess, sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
O = V + '/build/overlay/protox'
REPO = os.environ.get('VX_REPO', '/repo')
# the definitions the harness and the embedded resolver need
PROTOS = ['any', 'api', 'descriptor', 'duration', 'empty', 'field_mask', 'source_context', 'struct', 'timestamp', 'type',
          'wrappers', 'compiler/plugin']


def put(dst, data):
    """write only on change, so that cargo rebuilds only what changed"""
    os.makedirs(os.path.dirname(dst), exist_ok=True)
    if not os.path.exists(dst) or open(dst, 'rb').read() != data:
        open(dst, 'wb').write(data)


def build():
    want = set()
    for d, _, fs in os.walk(REPO + '/protox/src'):
        for f in fs:
            rel = os.path.relpath(os.path.join(d, f), REPO + '/protox/src')
            want.add(rel)
            put(f'{O}/src/{rel}', open(os.path.join(d, f), 'rb').read())
    for d, _, fs in os.walk(O + '/src'):
        for f in fs:
            rel = os.path.relpath(os.path.join(d, f), O + '/src')
            if rel not in want:
                os.remove(os.path.join(d, f))
    for p in PROTOS:
        put(f'{O}/protobuf/src/google/protobuf/{p}.proto', open(f'{V}/protoxh/protos/{p}.proto', 'rb').read())
    t = open(REPO + '/protox/Cargo.toml').read()
    t = t.split('[dev-dependencies]')[0].replace('path = "../protox-parse"', f'path = "{REPO}/protox-parse"')
    t = t.replace('readme = "../README.md"\n', '')
    t = re.sub(r'\[\[bin\]\].*?\n\n', '', t, flags=re.S)
    put(O + '/Cargo.toml', t.encode())
    p = subprocess.run(['cargo', 'build', '--offline'], cwd=V + '/protoxh', stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode != 0:
        print(p.stdout[-4000:], file=sys.stderr)
        sys.exit(2)
    return V + '/protoxh/target/debug/protoxh'


if __name__ == '__main__':
    print(build())
