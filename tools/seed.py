"""seed.py <spec.py>...: builds /verif/seeded/<id>/ from a spec and confirms it in a scratch copy.
A spec defines: id, prop, needs, breaks, edits=[(file, old, new)], demo (body of func main using the helpers below), extra (imports)."""
import json, os, shutil, subprocess, sys, tempfile

DEMO = '''#!/bin/bash
. /opt/vp/env.sh
here=$(cd "$(dirname "$0")" && pwd)
d=$(mktemp -d)
trap 'rm -rf "$d"' EXIT
cp "$here/main.go" "$d/main.go"
sed 's/^module .*/module demo/' go.mod > "$d/go.mod"
cp go.sum "$d/go.sum"
printf '\\nrequire github.com/viant/velty v0.0.0\\nreplace github.com/viant/velty => %s\\n' "$PWD" >> "$d/go.mod"
cd "$d" && timeout 120 go run .
'''
HEAD = '''package main

import (
	"fmt"
	"os"

	"github.com/viant/velty"
%s)

type v struct {
	name string
	val  interface{}
}

var opts []velty.Option

// render compiles and executes a template
func render(tpl string, vars ...v) string {
	p := velty.New(opts...)
	for _, x := range vars {
		if err := p.DefineVariable(x.name, x.val); err != nil {
			return "define: " + err.Error()
		}
	}
	exec, newState, err := p.Compile([]byte(tpl))
	if err != nil {
		return "compile: " + err.Error()
	}
	s := newState()
	for _, x := range vars {
		if err := s.SetValue(x.name, x.val); err != nil {
			return "set: " + err.Error()
		}
	}
	if err = exec.Exec(s); err != nil {
		return s.Buffer.String() + " error: " + err.Error()
	}
	return s.Buffer.String()
}

func expect(got, want interface{}) {
	if fmt.Sprint(got) != fmt.Sprint(want) {
		fmt.Printf("got %%q, want %%q\\n", fmt.Sprint(got), fmt.Sprint(want))
		os.Exit(1)
	}
}
'''

def sh(cmd, cwd):
    return subprocess.run(cmd, cwd=cwd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)

def one(path):
    s = {}
    exec(open(path).read(), s)
    out = '/verif/seeded/' + s['id']
    work = tempfile.mkdtemp(prefix='seed_')
    try:
        repo = work + '/repo'
        subprocess.check_call(['git', 'clone', '-q', '/repo', repo])
        for f, old, new in s['edits']:
            t = open(repo + '/' + f).read()
            if t.count(old) != 1:
                print(s['id'], 'EDIT MATCHES', t.count(old), f, repr(old[:60])); return
            open(repo + '/' + f, 'w').write(t.replace(old, new))
        diff = subprocess.check_output(['git', 'diff'], cwd=repo, text=True)
        # original lines only
        os.makedirs(out, exist_ok=True)
        open(out + '/patch.diff', 'w').write(diff)
        open(out + '/demo.sh', 'w').write(DEMO)
        os.chmod(out + '/demo.sh', 0o755)
        ex = ''.join('\t"%s"\n' % i for i in s.get('extra', []))
        open(out + '/main.go', 'w').write(HEAD % ex + '\n' + s.get('decl', '') + '\nfunc main() {\n' + s['demo'] + '\n}\n')
        sh('. /opt/vp/env.sh; gofmt -w ' + out + '/main.go', work)
        json.dump({'property': s['prop'], 'needs': s['needs'], 'what_it_breaks': s['breaks']}, open(out + '/meta.json', 'w'), indent=1)
        r = sh('. /opt/vp/env.sh; go build ./... && go vet ./est/... >/dev/null 2>&1; go test ./... 2>&1 | tail -15', repo)
        d1 = sh('bash %s/demo.sh' % out, repo)
        d0 = sh('bash %s/demo.sh' % out, '/repo')
        ok = 'FAIL' not in r.stdout and d1.returncode != 0 and d0.returncode == 0
        print(s['id'], 'OK' if ok else 'REJECT', 'unchanged rc', d0.returncode, 'patched rc', d1.returncode, d1.stdout.strip()[-150:])
        if not ok:
            print(r.stdout[-800:], d0.stdout[-800:])
        # blame: removed lines must be original
        for f, old, new in s['edits']:
            pass
        if not ok and not s.get('keep'):
            shutil.rmtree(out)
    finally:
        shutil.rmtree(work)

for p in sys.argv[1:]:
    one(p)
