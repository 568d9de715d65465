#!/usr/bin/env python3
"""Writes table.go: one row per service of the API that has a router and a wrapper in the repository.

Run by hand when the API changes; the rows name only exported identifiers."""
import glob, re, os
repo = '/repo'
api = [d for d in glob.glob('/root/go/pkg/mod/github.com/smart-core-os/sc-api/go@*')][0]
svcs = {}  # ClientName -> (pkgalias, [(method, in, streaming)])
def scan(path, alias):
    s = open(path).read()
    for m in re.finditer(r'type (\w+Client) interface \{\n(.*?)^\}', s, re.S | re.M):
        ms = []
        for mm in re.finditer(r'\n?\t(\w+)\(ctx context.Context, in \*([\w.]+), opts \.\.\.grpc\.CallOption\) \(([^,]*), error\)', m.group(2)):
            out = mm.group(3)
            ms.append((mm.group(1), mm.group(2), not out.startswith('*'), out))
        if ms:
            svcs[alias + '.' + m.group(1)] = ms
for f in glob.glob(api + '/traits/*_grpc.pb.go'):
    scan(f, 'traits')
for f in glob.glob(repo + '/pkg/trait/*/*_grpc.pb.go'):
    scan(f, os.path.basename(os.path.dirname(f)))
imports, rows = set(), []
for f in sorted(glob.glob(repo + '/pkg/trait/*/*_router.pb.go')):
    s = open(f).read()
    pkg = os.path.basename(os.path.dirname(f))
    if not any(os.path.exists(os.path.join(os.path.dirname(f), n)) for n in ('memory.go', 'model_server.go')) or f.endswith('info_router.pb.go'):
        continue
    r = re.search(r'func New(\w+)\(opts', s).group(1)
    reg = re.search(r'func \(r \*\w+\) Register\(server grpc.ServiceRegistrar\) \{\n\t(?:(\w+)\.)?Register(\w+)Server', s)
    alias, svc = reg.group(1) or pkg, reg.group(2)
    w = open(f.replace('_router.pb.go', '_wrap.pb.go')).read()
    wrap = re.search(r'func (Wrap\w+)\(server (?:\w+\.)?(\w+)Server\)', w)
    assert wrap.group(2) == svc, f
    imports.add(pkg)
    C = f'{alias}.{svc}Client'
    row = f'''	{{
		name: "{pkg}.{r}", desc: &{alias}.{svc}_ServiceDesc,
		router:  func(opts ...router.Option) router.Router {{ return {pkg}.New{r}(opts...) }},
		wrap:    func(s any) any {{ return {pkg}.{wrap.group(1)}(s.({alias}.{svc}Server)) }},
		add:     func(r any, n string, c any) any {{ return iface(r.(*{pkg}.{r}).Add{svc}Client(n, c.({C}))) }},
		calls: map[string]call{{
'''
    for m, i, st, out in svcs.get(C, []):
        ity = i if '.' in i else f'{alias}.{i}'
        if st:
            om = re.search(r'Client\[([\w.]+)\]|(\w+)_\w+Client$', out)
            oty = om.group(1); oty = oty if '.' in oty else f'{alias}.{oty}'
            row += f'''			"{m}": {{req: func() proto.Message {{ return &{ity}{{}} }}, res: func() proto.Message {{ return &{oty}{{}} }}, open: func(ctx context.Context, c any, q proto.Message) (grpc.ClientStream, error) {{ return open(c.({C}).{m}(ctx, q.(*{ity}))) }}}},
'''
        else:
            row += f'''			"{m}": {{req: func() proto.Message {{ return &{ity}{{}} }}, unary: func(ctx context.Context, c any, q proto.Message) (proto.Message, error) {{ return msg(c.({C}).{m}(ctx, q.(*{ity}))) }}}},
'''
    row += '		},\n	},\n'
    rows.append(row)
extra = ''
if any('emptypb.' in r for r in rows): extra += '\t"google.golang.org/protobuf/types/known/emptypb"\n'
out = '''// Code generated by gen_table.py; DO NOT EDIT.

package c14

import (
	"context"

	"github.com/smart-core-os/sc-api/go/traits"
	"google.golang.org/grpc"
	"google.golang.org/protobuf/proto"
''' + extra + '''
	"github.com/smart-core-os/sc-golang/pkg/router"
''' + ''.join(f'\t"github.com/smart-core-os/sc-golang/pkg/trait/{p}"\n' for p in sorted(imports)) + ''')

var services = []*service{
''' + ''.join(rows) + '}\n'
open(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'table.go'), 'w').write(out)
print(len(rows), 'services', sum(len(v) for k, v in svcs.items()), 'methods')
