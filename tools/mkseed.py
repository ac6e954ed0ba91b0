# usage: edits are python snippets; creates patch from a scratch copy
import sys, subprocess, os, json, re
def make(id, prop, edits, needs, breaks, demo, files={}):
    d='/verif/seeded/'+id
    os.makedirs(d, exist_ok=True)
    w='/tmp/sw'
    subprocess.run(['git','-C','/repo','worktree','remove','--force',w],capture_output=True)
    subprocess.check_call(['git','-C','/repo','worktree','add','-q','--detach',w,'HEAD'])
    for f,old,new in edits:
        p=os.path.join(w,f); s=open(p).read()
        assert s.count(old)==1,(id,f,s.count(old),old)
        open(p,'w').write(s.replace(old,new))
    diff=subprocess.check_output(['git','-C',w,'diff'],text=True)
    open(d+'/patch.diff','w').write(diff)
    subprocess.check_call(['git','-C','/repo','worktree','remove','--force',w])
    open(d+'/demo.sh','w').write(demo); os.chmod(d+'/demo.sh',0o755)
    for n,t in files.items(): open(d+'/'+n,'w').write(t)
    json.dump({"property":prop,"needs":needs,"what_it_breaks":breaks},open(d+'/meta.json','w'),indent=1)
    print(id,len(diff))
HEAD=r'''#!/bin/bash
# exit 0: the property holds; run with cwd /repo after the build
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
T=$(mktemp -d /tmp/demo.XXXXXX) || exit 2
trap 'rm -rf "$T"' EXIT
export HOME=$T XDG_CONFIG_HOME=$T/xdg NOTMUCH_CONFIG=$T/config TZ=UTC LC_ALL=C
unset NOTMUCH_DATABASE NOTMUCH_PROFILE XAPIAN_FLUSH_THRESHOLD
mkdir -p $T/mail/cur $T/mail/new $T/mail/tmp
printf '[database]\npath=%s/mail\n[user]\nname=A\nprimary_email=a@example.org\n[new]\ntags=unread;inbox\n[maildir]\nsynchronize_flags=false\n' $T > $NOTMUCH_CONFIG
NM=$repo/notmuch-shared
export LD_LIBRARY_PATH=$repo/lib
msg () { printf 'From: a@example.org\nTo: b@example.org\nSubject: s %s\nMessage-ID: <%s@demo>\nDate: Mon, 01 Jan 2024 00:00:00 +0000\n\nbody %s\n' $1 $1 $1; }
pre () { gcc -shared -fPIC -O1 -o $T/pre.so "$here/pre.c" -ldl || exit 2; }
'''
