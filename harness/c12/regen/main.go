// Command regen runs the repository's generators over the current API descriptors and compares what they produce with
// the checked-in routers and wrappers, leaving imports, comments and formatting aside. Where they differ it writes the
// produced file, and an overlay that puts it in the place of the checked-in one.
//
//	regen REPO OUTDIR GENERATOR...
package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/printer"
	"go/token"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"

	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/reflect/protodesc"
	"google.golang.org/protobuf/reflect/protoreflect"
	"google.golang.org/protobuf/reflect/protoregistry"
	"google.golang.org/protobuf/types/pluginpb"

	_ "github.com/smart-core-os/sc-api/go/traits"
	_ "github.com/smart-core-os/sc-golang/pkg/trait/electricpb"
)

func die(code int, args ...any) {
	fmt.Println(args...)
	os.Exit(code)
}

func request() []byte {
	req := &pluginpb.CodeGeneratorRequest{}
	done := map[string]bool{}
	var add func(fd protoreflect.FileDescriptor)
	add = func(fd protoreflect.FileDescriptor) {
		if done[fd.Path()] {
			return
		}
		done[fd.Path()] = true
		for i := 0; i < fd.Imports().Len(); i++ {
			add(fd.Imports().Get(i).FileDescriptor)
		}
		req.ProtoFile = append(req.ProtoFile, protodesc.ToFileDescriptorProto(fd))
	}
	var fds []protoreflect.FileDescriptor
	protoregistry.GlobalFiles.RangeFiles(func(fd protoreflect.FileDescriptor) bool { fds = append(fds, fd); return true })
	sort.Slice(fds, func(i, j int) bool { return fds[i].Path() < fds[j].Path() })
	for _, fd := range fds {
		if fd.Services().Len() == 0 || fd.Package() != "smartcore.traits" && !strings.HasPrefix(fd.Path(), "pkg/trait/") {
			continue
		}
		add(fd)
		req.FileToGenerate = append(req.FileToGenerate, fd.Path())
	}
	b, err := proto.Marshal(req)
	if err != nil {
		die(2, err)
	}
	return b
}

func normal(src []byte) string {
	fset := token.NewFileSet()
	f, err := parser.ParseFile(fset, "x.go", src, parser.SkipObjectResolution)
	if err != nil {
		return ""
	}
	var out bytes.Buffer
	for _, d := range f.Decls {
		if g, ok := d.(*ast.GenDecl); ok && g.Tok == token.IMPORT {
			continue
		}
		printer.Fprint(&out, token.NewFileSet(), d)
		out.WriteByte('\n')
	}
	return out.String()
}

func main() {
	repo, out := os.Args[1], os.Args[2]
	in := request()
	rep := map[string]string{}
	same := 0
	for _, gen := range os.Args[3:] {
		cmd := exec.Command(gen)
		cmd.Stdin = bytes.NewReader(in)
		cmd.Stderr = os.Stderr
		b, err := cmd.Output()
		res := &pluginpb.CodeGeneratorResponse{}
		if err == nil {
			err = proto.Unmarshal(b, res)
		}
		if err == nil && res.Error != nil {
			err = fmt.Errorf("%s", *res.Error)
		}
		if err != nil {
			die(1, "the generator fails:", gen, err)
		}
		for _, f := range res.File {
			want := normal([]byte(f.GetContent()))
			if want == "" {
				die(1, "the generator writes no Go:", f.GetName())
			}
			dir := filepath.Join(repo, filepath.Dir(f.GetName()))
			at := filepath.Join(repo, f.GetName())
			found := false
			names, _ := filepath.Glob(filepath.Join(dir, "*.pb.go"))
			for _, n := range append([]string{at}, names...) {
				b, err := os.ReadFile(n)
				if err == nil && normal(b) == want {
					found = true
					break
				}
			}
			if found {
				same++
				continue
			}
			n := filepath.Join(out, strings.ReplaceAll(f.GetName(), "/", "_"))
			if err := os.WriteFile(n, []byte(f.GetContent()), 0o644); err != nil {
				die(2, err)
			}
			if strings.Contains(at, "motionsensorpb/sensorinfo_") {
				at = strings.Replace(at, "sensorinfo_", "info_", 1) // checked in under its former name
			}
			rep[at] = n
			fmt.Println("not as generated:", f.GetName())
		}
	}
	fmt.Println("as generated:", same)
	b, _ := json.MarshalIndent(map[string]any{"Replace": rep}, "", " ")
	if len(rep) > 0 {
		if err := os.WriteFile(filepath.Join(out, "overlay.json"), b, 0o644); err != nil {
			die(2, err)
		}
	}
}
