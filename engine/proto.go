package main

import (
	"fmt"
	"go/ast"
	"go/constant"
	"go/token"
	"go/types"
	"math"
	"sort"
	"strconv"
	"strings"
	"sync"
	"unicode/utf8"

	"golang.org/x/tools/go/packages"
	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/reflect/protodesc"
	pref "google.golang.org/protobuf/reflect/protoreflect"
	"google.golang.org/protobuf/reflect/protoregistry"
	"google.golang.org/protobuf/types/descriptorpb"
)

// ProtoWorld holds the descriptors of the loaded program and their Go types.
type ProtoWorld struct {
	p      *Program
	files  *protoregistry.Files
	mu     sync.Mutex
	byDesc map[pref.FullName]*MsgInfo
	byType map[types.Type]*MsgInfo // keyed by canonical named struct type
	enums  map[types.Type]pref.EnumDescriptor
	enumTy map[pref.FullName]types.Type
	msgStateT, listT, mapT types.Type
}

type fkind uint8

const (
	fScalar fkind = iota // implicit presence, stored directly
	fOpt                 // pointer to scalar
	fBytesOpt            // proto2 optional bytes
	fMsg
	fList
	fMap
	fOneof
)

type FieldInfo struct {
	fd      pref.FieldDescriptor
	idx     int
	kind    fkind
	ft      types.Type // Go type of the struct field (or of the wrapper's inner field)
	elem    types.Type // element type for lists/maps/optional scalars
	wrap    types.Type // oneof: pointer to wrapper struct
	wrapSt  types.Type
	keyT    types.Type
	sort    Sort
}

type MsgInfo struct {
	desc   pref.MessageDescriptor
	named  types.Type
	ptr    types.Type
	fields []*FieldInfo
	byNum  map[pref.FieldNumber]*FieldInfo
	unk    int
	built  bool
}

type MsgHandle struct {
	cell *Cell
	mi   *MsgInfo
}

// ListHandle is a protoreflect.List over a slice held in a cell (nil cell: read-only empty).
type ListHandle struct {
	cell *Cell
	fi   *FieldInfo
}
type MapHandle struct {
	cell *Cell
	fi   *FieldInfo
}

type PRefValue struct {
	kind pref.Kind
	v    Value // scalar, or IfaceV holding *MsgHandle/*ListHandle/*MapHandle
}

func camel(s string) string {
	// protoc-gen-go's GoCamelCase
	var b []byte
	lower := func(c byte) bool { return 'a' <= c && c <= 'z' }
	digit := func(c byte) bool { return '0' <= c && c <= '9' }
	for i := 0; i < len(s); i++ {
		c := s[i]
		switch {
		case c == '.' && i+1 < len(s) && lower(s[i+1]):
		case c == '.':
			b = append(b, '_')
		case c == '_' && (i == 0 || s[i-1] == '.'):
			b = append(b, 'X')
		case c == '_' && i+1 < len(s) && lower(s[i+1]):
		case digit(c):
			b = append(b, c)
		default:
			if lower(c) {
				c -= 'a' - 'A'
			}
			b = append(b, c)
			for ; i+1 < len(s) && lower(s[i+1]); i++ {
				b = append(b, s[i+1])
			}
		}
	}
	return string(b)
}

// rawDescs finds the serialized descriptors in a package's syntax.
func rawDescs(pkg *packages.Package) [][]byte {
	var out [][]byte
	for _, f := range pkg.Syntax {
		for _, d := range f.Decls {
			gd, ok := d.(*ast.GenDecl)
			if !ok || (gd.Tok != token.VAR && gd.Tok != token.CONST) {
				continue
			}
			for _, sp := range gd.Specs {
				vs, ok := sp.(*ast.ValueSpec)
				if !ok || len(vs.Names) != 1 || !strings.HasPrefix(vs.Names[0].Name, "file_") || !strings.HasSuffix(vs.Names[0].Name, "_rawDesc") || len(vs.Values) != 1 {
					continue
				}
				if cl, ok := vs.Values[0].(*ast.CompositeLit); ok {
					b := make([]byte, 0, len(cl.Elts))
					for _, e := range cl.Elts {
						if bl, ok := e.(*ast.BasicLit); ok {
							n, err := strconv.ParseUint(bl.Value, 0, 8)
							if err != nil {
								b = nil
								break
							}
							b = append(b, byte(n))
						}
					}
					out = append(out, b)
				} else if tv, ok := pkg.TypesInfo.Types[vs.Values[0]]; ok && tv.Value != nil && tv.Value.Kind() == constant.String {
					out = append(out, []byte(constant.StringVal(tv.Value)))
				}
			}
		}
	}
	return out
}

func buildProtoWorld(p *Program, pkgs []*packages.Package) *ProtoWorld {
	w := &ProtoWorld{p: p, byDesc: map[pref.FullName]*MsgInfo{}, byType: map[types.Type]*MsgInfo{}, enums: map[types.Type]pref.EnumDescriptor{}, enumTy: map[pref.FullName]types.Type{}}
	set := &descriptorpb.FileDescriptorSet{}
	owner := map[string]*packages.Package{}
	packages.Visit(pkgs, nil, func(pkg *packages.Package) {
		for _, raw := range rawDescs(pkg) {
			fd := &descriptorpb.FileDescriptorProto{}
			if err := proto.Unmarshal(raw, fd); err != nil {
				continue
			}
			if owner[fd.GetName()] != nil {
				continue
			}
			owner[fd.GetName()] = pkg
			set.File = append(set.File, fd)
		}
	})
	opts := protodesc.FileOptions{AllowUnresolvable: true}
	files, err := opts.NewFiles(set)
	if err != nil {
		panic("descriptors: " + err.Error())
	}
	w.files = files
	var reg func(pkg *packages.Package, fpkg pref.FullName, ms pref.MessageDescriptors, es pref.EnumDescriptors)
	goName := func(fpkg, full pref.FullName) string {
		return camel(strings.TrimPrefix(strings.TrimPrefix(string(full), string(fpkg)), "."))
	}
	reg = func(pkg *packages.Package, fpkg pref.FullName, ms pref.MessageDescriptors, es pref.EnumDescriptors) {
		for i := 0; i < es.Len(); i++ {
			if o := pkg.Types.Scope().Lookup(goName(fpkg, es.Get(i).FullName())); o != nil {
				w.enums[canon(o.Type())] = es.Get(i)
				w.enumTy[es.Get(i).FullName()] = canon(o.Type())
			}
		}
		for i := 0; i < ms.Len(); i++ {
			m := ms.Get(i)
			reg(pkg, fpkg, m.Messages(), m.Enums())
			if m.IsMapEntry() {
				continue
			}
			o := pkg.Types.Scope().Lookup(goName(fpkg, m.FullName()))
			if o == nil {
				continue
			}
			if _, ok := under(o.Type()).(*types.Struct); !ok {
				continue
			}
			mi := &MsgInfo{desc: m, named: canon(o.Type()), byNum: map[pref.FieldNumber]*FieldInfo{}, unk: -1}
			mi.ptr = canon(types.NewPointer(mi.named))
			w.byDesc[m.FullName()] = mi
			w.byType[mi.named] = mi
		}
	}
	files.RangeFiles(func(fd pref.FileDescriptor) bool {
		reg(owner[fd.Path()], fd.Package(), fd.Messages(), fd.Enums())
		return true
	})
	impl := "google.golang.org/protobuf/internal/impl"
	if t := p.namedType(impl, "messageState"); t != nil {
		w.msgStateT = p.ptrTo(t)
		w.listT = p.ptrTo(p.namedType(impl, "listReflect"))
		w.mapT = p.ptrTo(p.namedType(impl, "mapReflect"))
	}
	return w
}

func tagNum(tag string) (pref.FieldNumber, bool) {
	i := strings.Index(tag, `protobuf:"`)
	if i < 0 {
		return 0, false
	}
	parts := strings.Split(tag[i+len(`protobuf:"`):], ",")
	if len(parts) < 2 {
		return 0, false
	}
	n, err := strconv.Atoi(parts[1])
	return pref.FieldNumber(n), err == nil
}

func (w *ProtoWorld) build(mi *MsgInfo) {
	w.mu.Lock()
	defer w.mu.Unlock()
	if mi.built {
		return
	}
	st := under(mi.named).(*types.Struct)
	pkg := mi.named.(*types.Named).Obj().Pkg()
	for i := 0; i < st.NumFields(); i++ {
		f := st.Field(i)
		if f.Name() == "unknownFields" {
			mi.unk = i
			continue
		}
		tag := st.Tag(i)
		if strings.Contains(tag, "protobuf_oneof:") {
			it := under(f.Type()).(*types.Interface)
			for _, nm := range pkg.Scope().Names() {
				tn, ok := pkg.Scope().Lookup(nm).(*types.TypeName)
				if !ok {
					continue
				}
				ws, ok := under(tn.Type()).(*types.Struct)
				if !ok || ws.NumFields() != 1 {
					continue
				}
				pt := types.NewPointer(tn.Type())
				if !types.Implements(pt, it) {
					continue
				}
				num, ok := tagNum(ws.Tag(0))
				if !ok {
					continue
				}
				fd := mi.desc.Fields().ByNumber(num)
				if fd == nil {
					continue
				}
				fi := &FieldInfo{fd: fd, idx: i, kind: fOneof, ft: ws.Field(0).Type(), wrap: canon(pt), wrapSt: tn.Type()}
				fi.elem = fi.ft
				fi.sort, _, _ = basicSort(fi.ft)
				mi.fields = append(mi.fields, fi)
				mi.byNum[num] = fi
			}
			continue
		}
		num, ok := tagNum(tag)
		if !ok {
			continue
		}
		fd := mi.desc.Fields().ByNumber(num)
		if fd == nil {
			continue
		}
		fi := &FieldInfo{fd: fd, idx: i, ft: f.Type(), elem: f.Type()}
		switch {
		case fd.IsMap():
			fi.kind = fMap
			fi.keyT = under(f.Type()).(*types.Map).Key()
			fi.elem = under(f.Type()).(*types.Map).Elem()
		case fd.IsList():
			fi.kind = fList
			fi.elem = under(f.Type()).(*types.Slice).Elem()
		case fd.Kind() == pref.MessageKind || fd.Kind() == pref.GroupKind:
			fi.kind = fMsg
		case fd.HasPresence():
			if fd.Kind() == pref.BytesKind {
				fi.kind = fBytesOpt
			} else {
				fi.kind = fOpt
				fi.elem = under(f.Type()).(*types.Pointer).Elem()
			}
		default:
			fi.kind = fScalar
		}
		fi.sort, _, _ = basicSort(fi.elem)
		mi.fields = append(mi.fields, fi)
		mi.byNum[num] = fi
	}
	sort.Slice(mi.fields, func(a, b int) bool { return mi.fields[a].fd.Index() < mi.fields[b].fd.Index() })
	mi.built = true
}

func (w *ProtoWorld) infoOf(t types.Type) *MsgInfo {
	if pt, ok := under(t).(*types.Pointer); ok {
		t = pt.Elem()
	}
	mi := w.byType[canon(types.Unalias(t))]
	if mi != nil {
		w.build(mi)
	}
	return mi
}

func (w *ProtoWorld) infoFor(d pref.MessageDescriptor) *MsgInfo {
	mi := w.byDesc[d.FullName()]
	if mi == nil {
		unsupported("no Go type for message %s", d.FullName())
	}
	w.build(mi)
	return mi
}

// ---- message operations on the interpreted heap

func (vm *VM) msgOf(v Value) (*Cell, *MsgInfo, bool) {
	iv, ok := v.(IfaceV)
	if !ok || iv.t == nil {
		return nil, nil, false
	}
	if h, ok := iv.v.(*MsgHandle); ok {
		return h.cell, h.mi, true
	}
	mi := vm.p.proto.infoOf(iv.t)
	if mi == nil {
		unsupported("not a generated message: %v", iv.t)
	}
	c, _ := iv.v.(*Cell)
	return c, mi, true
}

func (vm *VM) newMsg(mi *MsgInfo) *Cell { return &Cell{v: zero(mi.named)} }

func msgFields(c *Cell) []Cell {
	return c.v.(*StructV).f
}

func (vm *VM) fieldLoad(c *Cell, fi *FieldInfo) Value {
	fc := &msgFields(c)[fi.idx]
	return vm.load(fc)
}
func (vm *VM) fieldStore(c *Cell, fi *FieldInfo, v Value) {
	vm.store(&msgFields(c)[fi.idx], v)
}

// oneofInner returns the wrapper's value cell when the oneof holds this member.
func (vm *VM) oneofInner(c *Cell, fi *FieldInfo) *Cell {
	iv := vm.fieldLoad(c, fi).(IfaceV)
	if iv.t == nil || !types.Identical(iv.t, fi.wrap) {
		return nil
	}
	wc := iv.v.(*Cell)
	if wc == nil {
		return nil
	}
	return &wc.v.(*StructV).f[0]
}

func isMsgKind(fd pref.FieldDescriptor) bool {
	return fd.Kind() == pref.MessageKind || fd.Kind() == pref.GroupKind
}

// scalarHas is presence of an implicit-presence scalar.
func (vm *VM) scalarHas(v Value, fi *FieldInfo) Value {
	switch x := v.(type) {
	case bool:
		return x
	case uint64:
		return x != 0
	case float32:
		return math.Float32bits(x) != 0
	case float64:
		return math.Float64bits(x) != 0
	case string:
		return x != ""
	case *SymStr:
		return len(x.b) > 0
	case SliceV:
		return x.len > 0
	case *Term:
		if x.sort == SBool {
			return x
		}
		return vm.not(val(vm.tt.Bin(OEq, x, vm.tt.Const(x.sort, 0))))
	}
	unsupported("scalarHas %T", v)
	return nil
}

func (vm *VM) hasField(c *Cell, fi *FieldInfo) Value {
	if c == nil {
		return false
	}
	switch fi.kind {
	case fScalar:
		return vm.scalarHas(vm.fieldLoad(c, fi), fi)
	case fOpt, fMsg:
		return vm.fieldLoad(c, fi).(*Cell) != nil
	case fBytesOpt:
		return vm.fieldLoad(c, fi).(SliceV).arr != nil
	case fList:
		return vm.fieldLoad(c, fi).(SliceV).len > 0
	case fMap:
		return vm.mapLen(vm.fieldLoad(c, fi).(*MapV)) > 0
	case fOneof:
		return vm.oneofInner(c, fi) != nil
	}
	return false
}

func (vm *VM) clearField(c *Cell, fi *FieldInfo) {
	if c == nil {
		vm.nilDeref()
	}
	if fi.kind == fOneof {
		if vm.oneofInner(c, fi) != nil {
			vm.fieldStore(c, fi, IfaceV{})
		}
		return
	}
	vm.fieldStore(c, fi, zero(fi.ft))
}

func (vm *VM) unknown(c *Cell, mi *MsgInfo) SliceV {
	if c == nil || mi.unk < 0 {
		return SliceV{}
	}
	return vm.load(&msgFields(c)[mi.unk]).(SliceV)
}

func (vm *VM) cloneBytes(s SliceV) SliceV {
	a := &ArrayV{e: make([]Cell, s.len)}
	for i := range a.e {
		a.e[i].v = vm.load(&s.arr.e[s.off+i])
	}
	return SliceV{arr: a, len: s.len, cap: s.len}
}

func (vm *VM) cloneElem(fd pref.FieldDescriptor, v Value) Value {
	if isMsgKind(fd) {
		mi := vm.p.proto.infoFor(fd.Message())
		c, _ := v.(*Cell)
		return vm.cloneMsg(c, mi)
	}
	if s, ok := v.(SliceV); ok {
		return vm.cloneBytes(s)
	}
	return v
}

// cloneMsg deep-copies a message (a nil pointer clones to an empty message, as lists of nil do).
func (vm *VM) cloneMsg(c *Cell, mi *MsgInfo) *Cell {
	n := vm.newMsg(mi)
	if c != nil {
		vm.mergeMsg(n, c, mi)
	}
	return n
}

func (vm *VM) mergeMsg(dst, src *Cell, mi *MsgInfo) {
	if src == nil {
		return
	}
	if dst == nil {
		vm.rtPanic("cannot merge into invalid message")
	}
	for _, fi := range mi.fields {
		switch fi.kind {
		case fScalar:
			sv := vm.fieldLoad(src, fi)
			has := vm.scalarHas(sv, fi)
			if has == false {
				continue
			}
			if s, ok := sv.(SliceV); ok {
				vm.fieldStore(dst, fi, vm.cloneBytes(s))
				continue
			}
			if has == true {
				vm.fieldStore(dst, fi, sv)
				continue
			}
			dv := vm.fieldLoad(dst, fi)
			vm.fieldStore(dst, fi, vm.iteScalar(has, sv, dv, fi.sort))
		case fOpt:
			p := vm.fieldLoad(src, fi).(*Cell)
			if p != nil {
				vm.fieldStore(dst, fi, &Cell{v: vm.load(p)})
			}
		case fBytesOpt:
			s := vm.fieldLoad(src, fi).(SliceV)
			if s.arr != nil {
				vm.fieldStore(dst, fi, vm.cloneBytes(s))
			}
		case fMsg:
			p := vm.fieldLoad(src, fi).(*Cell)
			if p != nil {
				smi := vm.p.proto.infoFor(fi.fd.Message())
				d := vm.fieldLoad(dst, fi).(*Cell)
				if d == nil {
					d = vm.newMsg(smi)
					vm.fieldStore(dst, fi, d)
				}
				vm.mergeMsg(d, p, smi)
			}
		case fList:
			s := vm.fieldLoad(src, fi).(SliceV)
			if s.len == 0 {
				continue
			}
			els := make([]Value, s.len)
			for i := range els {
				els[i] = vm.cloneElem(fi.fd, vm.load(&s.arr.e[s.off+i]))
			}
			vm.fieldStore(dst, fi, vm.appendVals(vm.fieldLoad(dst, fi).(SliceV), els))
		case fMap:
			s := vm.fieldLoad(src, fi).(*MapV)
			if s == nil || s.n == 0 {
				continue
			}
			if vm.race != nil {
				vm.raceRead(&s.raceCell)
			}
			d := vm.fieldLoad(dst, fi).(*MapV)
			if d == nil {
				d = newMap(fi.keyT)
				vm.fieldStore(dst, fi, d)
			}
			for i := range s.keys {
				if s.live[i] {
					vm.mapSet(d, s.keys[i], vm.cloneElem(fi.fd.MapValue(), s.vals[i]))
				}
			}
		case fOneof:
			in := vm.oneofInner(src, fi)
			if in == nil {
				continue
			}
			v := vm.load(in)
			if isMsgKind(fi.fd) {
				smi := vm.p.proto.infoFor(fi.fd.Message())
				if dIn := vm.oneofInner(dst, fi); dIn != nil {
					d := vm.load(dIn).(*Cell)
					if d == nil {
						d = vm.newMsg(smi)
						vm.store(dIn, d)
					}
					vm.mergeMsg(d, v.(*Cell), smi)
					continue
				}
				v = vm.cloneMsg(v.(*Cell), smi)
			} else if s, ok := v.(SliceV); ok {
				v = vm.cloneBytes(s)
			}
			ws := zero(fi.wrapSt).(*StructV)
			ws.f[0].v = v
			vm.fieldStore(dst, fi, IfaceV{t: fi.wrap, v: &Cell{v: ws}})
		}
	}
	if u := vm.unknown(src, mi); u.len > 0 {
		els := make([]Value, u.len)
		for i := range els {
			els[i] = vm.load(&u.arr.e[u.off+i])
		}
		uc := &msgFields(dst)[mi.unk]
		vm.store(uc, vm.appendVals(vm.load(uc).(SliceV), els))
	}
}

// scalarEq is the comparison protobuf uses for one value (NaN equals NaN).
func (vm *VM) scalarEq(a, b Value, s Sort) Value {
	switch x := a.(type) {
	case string, *SymStr:
		return vm.strEq(a, b)
	case SliceV:
		y := b.(SliceV)
		if x.len != y.len {
			return false
		}
		return vm.strEq(vm.sliceToStr(x), vm.sliceToStr(y))
	}
	if s == SF32 || s == SF64 {
		ta, tb := vm.term(a, s), vm.term(b, s)
		tt := vm.tt
		return val(tt.Or(tt.Bin(OFEq, ta, tb), tt.And(tt.Un(OFNaN, SBool, ta, 0, 0), tt.Un(OFNaN, SBool, tb, 0, 0))))
	}
	return vm.eqVal(nil, a, b)
}

func (vm *VM) elemEq(fd pref.FieldDescriptor, a, b Value, s Sort) Value {
	if isMsgKind(fd) {
		ca, _ := a.(*Cell)
		cb, _ := b.(*Cell)
		return vm.equalMsg(ca, cb, vm.p.proto.infoFor(fd.Message()))
	}
	return vm.scalarEq(a, b, s)
}

// equalMsg builds the condition under which two messages of one type are equal (proto.Equal).
func (vm *VM) equalMsg(a, b *Cell, mi *MsgInfo) Value {
	if a == b {
		return true
	}
	var r Value = true
	for _, fi := range mi.fields {
		var e Value
		switch {
		case a == nil || b == nil:
			h := vm.or(vm.hasField(a, fi), vm.hasField(b, fi))
			e = vm.not(h)
		case fi.kind == fScalar:
			x, y := vm.fieldLoad(a, fi), vm.fieldLoad(b, fi)
			e = vm.scalarEq(x, y, fi.sort)
			if fi.sort == SF32 || fi.sort == SF64 {
				e = val(vm.tt.Bin(OEq, vm.term(x, fi.sort), vm.term(y, fi.sort)))
			}
		case fi.kind == fOpt:
			x, y := vm.fieldLoad(a, fi).(*Cell), vm.fieldLoad(b, fi).(*Cell)
			if (x == nil) != (y == nil) {
				return false
			}
			e = true
			if x != nil {
				e = vm.scalarEq(vm.load(x), vm.load(y), fi.sort)
			}
		case fi.kind == fBytesOpt:
			x, y := vm.fieldLoad(a, fi).(SliceV), vm.fieldLoad(b, fi).(SliceV)
			if (x.arr == nil) != (y.arr == nil) {
				return false
			}
			e = vm.scalarEq(x, y, 0)
		case fi.kind == fMsg:
			x, y := vm.fieldLoad(a, fi).(*Cell), vm.fieldLoad(b, fi).(*Cell)
			if (x == nil) != (y == nil) {
				return false
			}
			e = true
			if x != nil {
				e = vm.equalMsg(x, y, vm.p.proto.infoFor(fi.fd.Message()))
			}
		case fi.kind == fList:
			x, y := vm.fieldLoad(a, fi).(SliceV), vm.fieldLoad(b, fi).(SliceV)
			if x.len != y.len {
				return false
			}
			e = true
			for i := 0; i < x.len; i++ {
				e = vm.and(e, vm.elemEq(fi.fd, vm.load(&x.arr.e[x.off+i]), vm.load(&y.arr.e[y.off+i]), fi.sort))
			}
		case fi.kind == fMap:
			x, y := vm.fieldLoad(a, fi).(*MapV), vm.fieldLoad(b, fi).(*MapV)
			if vm.mapLen(x) != vm.mapLen(y) {
				return false
			}
			e = true
			if x != nil {
				for i := range x.keys {
					if !x.live[i] {
						continue
					}
					yv, ok := vm.mapGet(y, x.keys[i])
					if !ok {
						return false
					}
					e = vm.and(e, vm.elemEq(fi.fd.MapValue(), x.vals[i], yv, fi.sort))
				}
			}
		case fi.kind == fOneof:
			x, y := vm.oneofInner(a, fi), vm.oneofInner(b, fi)
			if (x == nil) != (y == nil) {
				return false
			}
			e = true
			if x != nil {
				e = vm.elemEq(fi.fd, vm.load(x), vm.load(y), fi.sort)
			}
		}
		r = vm.and(r, e)
		if r == false {
			return false
		}
	}
	ua, ub := vm.unknown(a, mi), vm.unknown(b, mi)
	if ua.len != ub.len {
		return false
	}
	if ua.len > 0 {
		eq := vm.scalarEq(ua, ub, 0)
		if eq != true {
			// proto.Equal compares per field number; only byte equality is modelled for symbolic bytes
			x, okx := vm.sliceToStr(ua).(string)
			y, oky := vm.sliceToStr(ub).(string)
			if !okx || !oky {
				unsupported("unknown fields with symbolic bytes")
			}
			eq = unknownEq([]byte(x), []byte(y))
		}
		r = vm.and(r, eq)
	}
	return r
}

func unknownEq(x, y []byte) bool {
	sp := func(b []byte) map[pref.FieldNumber]string {
		m := map[pref.FieldNumber]string{}
		for len(b) > 0 {
			num, _, n := consumeField(b)
			if n < 0 {
				return nil
			}
			m[num] += string(b[:n])
			b = b[n:]
		}
		return m
	}
	a, b := sp(x), sp(y)
	if len(a) != len(b) {
		return false
	}
	for k, v := range a {
		if b[k] != v {
			return false
		}
	}
	return true
}

// ---- protoreflect

func (w *ProtoWorld) msgIface(h *MsgHandle) IfaceV { return IfaceV{t: w.msgStateT, v: h} }

func (vm *VM) prefOf(fd pref.FieldDescriptor, v Value) PRefValue {
	if isMsgKind(fd) {
		c, _ := v.(*Cell)
		return PRefValue{kind: pref.MessageKind, v: vm.p.proto.msgIface(&MsgHandle{c, vm.p.proto.infoFor(fd.Message())})}
	}
	return PRefValue{kind: normKind(fd.Kind()), v: v}
}

func normKind(k pref.Kind) pref.Kind {
	switch k {
	case pref.Sint32Kind, pref.Sfixed32Kind:
		return pref.Int32Kind
	case pref.Sint64Kind, pref.Sfixed64Kind:
		return pref.Int64Kind
	case pref.Fixed32Kind:
		return pref.Uint32Kind
	case pref.Fixed64Kind:
		return pref.Uint64Kind
	}
	return k
}

const (
	kindList pref.Kind = 100
	kindMap  pref.Kind = 101
)

func (w *ProtoWorld) listVal(h *ListHandle) PRefValue {
	return PRefValue{kind: kindList, v: IfaceV{t: w.listT, v: h}}
}
func (w *ProtoWorld) mapVal(h *MapHandle) PRefValue {
	return PRefValue{kind: kindMap, v: IfaceV{t: w.mapT, v: h}}
}

func (vm *VM) defaultVal(fi *FieldInfo) Value {
	if isMsgKind(fi.fd) {
		return (*Cell)(nil)
	}
	if fi.fd.HasDefault() {
		d := fi.fd.Default()
		switch x := d.Interface().(type) {
		case bool:
			return x
		case int32:
			return uint64(uint32(x))
		case int64:
			return uint64(x)
		case uint32:
			return uint64(x)
		case uint64:
			return x
		case float32:
			return x
		case float64:
			return x
		case string:
			return x
		case pref.EnumNumber:
			return uint64(uint32(x))
		}
	}
	if fi.fd.Kind() == pref.EnumKind {
		return uint64(uint32(fi.fd.Enum().Values().Get(0).Number()))
	}
	return zero(fi.elem)
}

func (vm *VM) prefGet(h *MsgHandle, fi *FieldInfo) PRefValue {
	w := vm.p.proto
	switch fi.kind {
	case fList:
		if h.cell == nil || vm.hasField(h.cell, fi) == false {
			return w.listVal(&ListHandle{nil, fi})
		}
		return w.listVal(&ListHandle{&msgFields(h.cell)[fi.idx], fi})
	case fMap:
		if h.cell == nil || vm.hasField(h.cell, fi) == false {
			return w.mapVal(&MapHandle{nil, fi})
		}
		return w.mapVal(&MapHandle{&msgFields(h.cell)[fi.idx], fi})
	}
	if h.cell == nil {
		return vm.prefOf(fi.fd, vm.defaultVal(fi))
	}
	switch fi.kind {
	case fOpt:
		if p := vm.fieldLoad(h.cell, fi).(*Cell); p != nil {
			return vm.prefOf(fi.fd, vm.load(p))
		}
		return vm.prefOf(fi.fd, vm.defaultVal(fi))
	case fOneof:
		if in := vm.oneofInner(h.cell, fi); in != nil {
			return vm.prefOf(fi.fd, vm.load(in))
		}
		return vm.prefOf(fi.fd, vm.defaultVal(fi))
	}
	return vm.prefOf(fi.fd, vm.fieldLoad(h.cell, fi))
}

// unpref gives the Go representation of a protoreflect value for a field.
func (vm *VM) unpref(fd pref.FieldDescriptor, pv PRefValue) Value {
	if isMsgKind(fd) && !fd.IsMap() {
		if pv.kind != pref.MessageKind {
			vm.rtPanic("type mismatch: cannot convert to message")
		}
		return pv.v.(IfaceV).v.(*MsgHandle).cell
	}
	return pv.v
}

func (vm *VM) prefSet(h *MsgHandle, fi *FieldInfo, pv PRefValue) {
	if h.cell == nil {
		vm.rtPanic("invalid memory address or nil pointer dereference")
	}
	switch fi.kind {
	case fList:
		lh, ok := pv.v.(IfaceV).v.(*ListHandle)
		if !ok {
			vm.rtPanic("type mismatch: list expected")
		}
		vm.fieldStore(h.cell, fi, vm.load(lh.cell))
		return
	case fMap:
		mh, ok := pv.v.(IfaceV).v.(*MapHandle)
		if !ok {
			vm.rtPanic("type mismatch: map expected")
		}
		vm.fieldStore(h.cell, fi, vm.load(mh.cell))
		return
	}
	v := vm.unpref(fi.fd, pv)
	switch fi.kind {
	case fOpt:
		vm.fieldStore(h.cell, fi, &Cell{v: v})
	case fOneof:
		ws := zero(fi.wrapSt).(*StructV)
		ws.f[0].v = v
		vm.fieldStore(h.cell, fi, IfaceV{t: fi.wrap, v: &Cell{v: ws}})
	default:
		vm.fieldStore(h.cell, fi, v)
	}
}

func (vm *VM) prefMutable(h *MsgHandle, fi *FieldInfo) PRefValue {
	w := vm.p.proto
	if h.cell == nil {
		vm.rtPanic("invalid memory address or nil pointer dereference")
	}
	switch fi.kind {
	case fList:
		return w.listVal(&ListHandle{&msgFields(h.cell)[fi.idx], fi})
	case fMap:
		m := vm.fieldLoad(h.cell, fi).(*MapV)
		if m == nil {
			vm.fieldStore(h.cell, fi, newMap(fi.keyT))
		}
		return w.mapVal(&MapHandle{&msgFields(h.cell)[fi.idx], fi})
	case fMsg:
		if vm.fieldLoad(h.cell, fi).(*Cell) == nil {
			vm.fieldStore(h.cell, fi, vm.newMsg(w.infoFor(fi.fd.Message())))
		}
	case fOneof:
		if !isMsgKind(fi.fd) {
			vm.rtPanic("field with non-message kind is not mutable")
		}
		if vm.oneofInner(h.cell, fi) == nil {
			vm.prefSet(h, fi, vm.prefOf(fi.fd, vm.newMsg(w.infoFor(fi.fd.Message()))))
		}
	default:
		vm.rtPanic("field is not mutable")
	}
	return vm.prefGet(h, fi)
}

func (vm *VM) fieldArg(h *MsgHandle, v Value) *FieldInfo {
	iv := v.(IfaceV)
	n, ok := iv.v.(*Native)
	if !ok {
		unsupported("field descriptor %T", iv.v)
	}
	fd := n.v.(pref.FieldDescriptor)
	fi := h.mi.byNum[fd.Number()]
	if fi == nil || fd.ContainingMessage().FullName() != h.mi.desc.FullName() {
		vm.rtPanic(fmt.Sprintf("%v: field descriptor does not belong to this message", fd.FullName()))
	}
	return fi
}

func (vm *VM) ifaceOfNative(host any) IfaceV {
	return IfaceV{t: vm.p.hostType(host), v: &Native{host}}
}

func (vm *VM) msgMethod(g *Gor, h *MsgHandle, name string, args []Value) Value {
	w := vm.p.proto
	switch name {
	case "Descriptor":
		return vm.ifaceOfNative(h.mi.desc)
	case "Interface":
		return IfaceV{t: h.mi.ptr, v: h.cell}
	case "ProtoReflect":
		return w.msgIface(h)
	case "IsValid":
		return h.cell != nil
	case "New":
		return w.msgIface(&MsgHandle{vm.newMsg(h.mi), h.mi})
	case "Type":
		return IfaceV{t: w.p.ptrTo(w.p.namedType("google.golang.org/protobuf/internal/impl", "MessageInfo")), v: &Native{msgTypeN{h.mi}}}
	case "Range":
		if h.cell == nil {
			return nil
		}
		f := args[0].(*FuncV)
		for _, fi := range h.mi.fields {
			if !vm.branch(vm.hasField(h.cell, fi)) {
				continue
			}
			r := vm.call(g, f, []Value{vm.ifaceOfNative(fi.fd), vm.prefGet(h, fi)})
			if !vm.branch(r) {
				break
			}
		}
		return nil
	case "Has":
		return vm.hasField(h.cell, vm.fieldArg(h, args[0]))
	case "Clear":
		vm.clearField(h.cell, vm.fieldArg(h, args[0]))
		return nil
	case "Get":
		return vm.prefGet(h, vm.fieldArg(h, args[0]))
	case "Set":
		vm.prefSet(h, vm.fieldArg(h, args[0]), args[1].(PRefValue))
		return nil
	case "Mutable":
		return vm.prefMutable(h, vm.fieldArg(h, args[0]))
	case "NewField":
		fi := vm.fieldArg(h, args[0])
		switch fi.kind {
		case fList:
			return w.listVal(&ListHandle{&Cell{v: SliceV{}}, fi})
		case fMap:
			return w.mapVal(&MapHandle{&Cell{v: newMap(fi.keyT)}, fi})
		}
		if isMsgKind(fi.fd) {
			return vm.prefOf(fi.fd, vm.newMsg(w.infoFor(fi.fd.Message())))
		}
		return vm.prefOf(fi.fd, vm.defaultVal(fi))
	case "WhichOneof":
		od := args[0].(IfaceV).v.(*Native).v.(pref.OneofDescriptor)
		for i := 0; i < od.Fields().Len(); i++ {
			fi := h.mi.byNum[od.Fields().Get(i).Number()]
			if vm.branch(vm.hasField(h.cell, fi)) {
				return vm.ifaceOfNative(fi.fd)
			}
		}
		return IfaceV{}
	case "GetUnknown":
		return vm.unknown(h.cell, h.mi)
	case "SetUnknown":
		vm.store(&msgFields(h.cell)[h.mi.unk], args[0])
		return nil
	case "ProtoMethods":
		return (*Cell)(nil)
	}
	unsupported("protoreflect.Message.%s", name)
	return nil
}

type msgTypeN struct{ mi *MsgInfo }

func (vm *VM) listMethod(g *Gor, h *ListHandle, name string, args []Value) Value {
	get := func() SliceV {
		if h.cell == nil {
			return SliceV{}
		}
		return vm.load(h.cell).(SliceV)
	}
	w := vm.p.proto
	switch name {
	case "Len":
		return uint64(get().len)
	case "Get":
		s := get()
		i := vm.index(args[0], true, s.len, g.fr, vm.curInstr)
		return vm.prefOf(h.fi.fd, vm.load(&s.arr.e[s.off+i]))
	case "IsValid":
		return h.cell != nil
	}
	if h.cell == nil {
		vm.rtPanic("modification of invalid list")
	}
	s := get()
	switch name {
	case "Set":
		i := vm.index(args[0], true, s.len, g.fr, vm.curInstr)
		vm.store(&s.arr.e[s.off+i], vm.unpref(h.fi.fd, args[1].(PRefValue)))
	case "Append":
		vm.store(h.cell, vm.appendVals(s, []Value{vm.unpref(h.fi.fd, args[0].(PRefValue))}))
	case "AppendMutable":
		c := vm.newMsg(w.infoFor(h.fi.fd.Message()))
		vm.store(h.cell, vm.appendVals(s, []Value{c}))
		return vm.prefOf(h.fi.fd, c)
	case "Truncate":
		n := int(vm.concInt(args[0], 64))
		s.len = n
		vm.store(h.cell, s)
	case "NewElement":
		if isMsgKind(h.fi.fd) {
			return vm.prefOf(h.fi.fd, vm.newMsg(w.infoFor(h.fi.fd.Message())))
		}
		return vm.prefOf(h.fi.fd, zero(h.fi.elem))
	default:
		unsupported("protoreflect.List.%s", name)
	}
	return nil
}

func (vm *VM) mapMethod(g *Gor, h *MapHandle, name string, args []Value) Value {
	get := func() *MapV {
		if h.cell == nil {
			return nil
		}
		return vm.load(h.cell).(*MapV)
	}
	w := vm.p.proto
	vfd, kfd := h.fi.fd.MapValue(), h.fi.fd.MapKey()
	key := func(v Value) Value { return v.(PRefValue).v }
	switch name {
	case "Len":
		return uint64(vm.mapLen(get()))
	case "IsValid":
		return h.cell != nil
	case "Has":
		_, ok := vm.mapGet(get(), key(args[0]))
		return ok
	case "Get":
		v, ok := vm.mapGet(get(), key(args[0]))
		if !ok {
			return PRefValue{}
		}
		return vm.prefOf(vfd, v)
	case "Range":
		m := get()
		if m == nil {
			return nil
		}
		f := args[0].(*FuncV)
		it := vm.mapIter(m, under(h.fi.ft).(*types.Map))
		for {
			t := it.next(vm, g).(Tuple)
			if t[0] == false {
				return nil
			}
			r := vm.call(g, f, []Value{PRefValue{normKind(kfd.Kind()), t[1]}, vm.prefOf(vfd, t[2])})
			if !vm.branch(r) {
				return nil
			}
		}
	case "NewValue":
		if isMsgKind(vfd) {
			return vm.prefOf(vfd, vm.newMsg(w.infoFor(vfd.Message())))
		}
		return vm.prefOf(vfd, zero(h.fi.elem))
	}
	if h.cell == nil {
		vm.rtPanic("modification of invalid map")
	}
	switch name {
	case "Set":
		vm.mapSet(get(), key(args[0]), vm.unpref(vfd, args[1].(PRefValue)))
	case "Clear":
		vm.mapDelete(get(), key(args[0]))
	case "Mutable":
		v, ok := vm.mapGet(get(), key(args[0]))
		if !ok {
			v = vm.newMsg(w.infoFor(vfd.Message()))
			vm.mapSet(get(), key(args[0]), v)
		}
		return vm.prefOf(vfd, v)
	default:
		unsupported("protoreflect.Map.%s", name)
	}
	return nil
}

// prefValueMethod runs a method of protoreflect.Value or MapKey.
func (vm *VM) prefValueMethod(name string, v PRefValue) Value {
	mismatch := func() { vm.rtPanic("type mismatch: cannot convert protoreflect.Value to " + name) }
	w := vm.p.proto
	switch name {
	case "IsValid":
		return v.kind != 0
	case "Value", "MapKey":
		return v
	case "Bool":
		if v.kind != pref.BoolKind {
			mismatch()
		}
		return v.v
	case "Int":
		switch v.kind {
		case pref.Int32Kind:
			return vm.convNum(v.v, 32, true, 64, true)
		case pref.Int64Kind:
			return v.v
		}
		mismatch()
	case "Uint":
		switch v.kind {
		case pref.Uint32Kind:
			return vm.convNum(v.v, 32, false, 64, false)
		case pref.Uint64Kind:
			return v.v
		}
		mismatch()
	case "Float":
		switch v.kind {
		case pref.FloatKind:
			return vm.convNum(v.v, SF32, true, SF64, true)
		case pref.DoubleKind:
			return v.v
		}
		mismatch()
	case "String":
		switch v.kind {
		case pref.StringKind:
			return v.v
		case 0:
			return "<nil>"
		}
		return vm.fmtValue(IfaceV{}, v.v)
	case "Bytes":
		if v.kind != pref.BytesKind {
			mismatch()
		}
		return v.v
	case "Enum":
		if v.kind != pref.EnumKind {
			mismatch()
		}
		return v.v
	case "Message":
		if v.kind != pref.MessageKind {
			mismatch()
		}
		return v.v
	case "List":
		if v.kind != kindList {
			mismatch()
		}
		return v.v
	case "Map":
		if v.kind != kindMap {
			mismatch()
		}
		return v.v
	case "Interface":
		var t types.Type
		switch v.kind {
		case 0:
			return IfaceV{}
		case pref.BoolKind:
			t = types.Typ[types.Bool]
		case pref.Int32Kind:
			t = types.Typ[types.Int32]
		case pref.Int64Kind:
			t = types.Typ[types.Int64]
		case pref.Uint32Kind:
			t = types.Typ[types.Uint32]
		case pref.Uint64Kind:
			t = types.Typ[types.Uint64]
		case pref.FloatKind:
			t = types.Typ[types.Float32]
		case pref.DoubleKind:
			t = types.Typ[types.Float64]
		case pref.StringKind:
			t = types.Typ[types.String]
		case pref.BytesKind:
			t = types.NewSlice(types.Typ[types.Uint8])
		case pref.EnumKind:
			t = w.p.namedType(prefValueType, "EnumNumber")
		default:
			return v.v
		}
		return IfaceV{t: canon(t), v: v.v}
	}
	unsupported("protoreflect.Value.%s", name)
	return nil
}

// prefEqual is Value.Equal.
func (vm *VM) prefEqual(x, y PRefValue) Value {
	if x.kind != y.kind {
		return false
	}
	switch x.kind {
	case 0:
		return true
	case pref.MessageKind:
		a, b := x.v.(IfaceV).v.(*MsgHandle), y.v.(IfaceV).v.(*MsgHandle)
		if a.mi != b.mi {
			return false
		}
		return vm.equalMsg(a.cell, b.cell, a.mi)
	case kindList:
		a, b := x.v.(IfaceV).v.(*ListHandle), y.v.(IfaceV).v.(*ListHandle)
		var sa, sb SliceV
		if a.cell != nil {
			sa = vm.load(a.cell).(SliceV)
		}
		if b.cell != nil {
			sb = vm.load(b.cell).(SliceV)
		}
		if sa.len != sb.len {
			return false
		}
		var r Value = true
		for i := 0; i < sa.len; i++ {
			r = vm.and(r, vm.elemEq(a.fi.fd, vm.load(&sa.arr.e[sa.off+i]), vm.load(&sb.arr.e[sb.off+i]), a.fi.sort))
		}
		return r
	case kindMap:
		unsupported("protoreflect.Value map comparison")
	}
	var s Sort
	switch x.kind {
	case pref.FloatKind:
		s = SF32
	case pref.DoubleKind:
		s = SF64
	}
	return vm.scalarEq(x.v, y.v, s)
}

// ---- fmutils nested masks, executed natively so that symbolic scalars do not fork

func (vm *VM) nestedFilter(mask *MapV, c *Cell, mi *MsgInfo, prune bool) {
	if mask == nil || vm.mapLen(mask) == 0 || c == nil {
		return
	}
	for _, fi := range mi.fields {
		sub, ok := vm.mapGet(mask, string(fi.fd.Name()))
		if !ok {
			if !prune {
				vm.condClear(c, fi)
			}
			continue
		}
		m, _ := sub.(*MapV)
		if m == nil || vm.mapLen(m) == 0 {
			if prune {
				vm.condClear(c, fi)
			}
			continue
		}
		switch {
		case fi.kind == fList:
			s := vm.fieldLoad(c, fi).(SliceV)
			for i := 0; i < s.len; i++ {
				if !isMsgKind(fi.fd) {
					vm.rtPanic("type mismatch: cannot convert scalar list element to message")
				}
				vm.nestedFilter(m, vm.load(&s.arr.e[s.off+i]).(*Cell), vm.p.proto.infoFor(fi.fd.Message()), prune)
			}
		case fi.kind == fMap:
			if vm.hasField(c, fi) == true {
				vm.rtPanic("type mismatch: cannot convert map to message")
			}
		case isMsgKind(fi.fd):
			h := &MsgHandle{c, mi}
			pv := vm.prefGet(h, fi)
			vm.nestedFilter(m, pv.v.(IfaceV).v.(*MsgHandle).cell, vm.p.proto.infoFor(fi.fd.Message()), prune)
		}
	}
}

// condClear clears a field if it is populated (only then is memory written).
func (vm *VM) condClear(c *Cell, fi *FieldInfo) {
	if vm.hasField(c, fi) == false {
		return
	}
	vm.clearField(c, fi)
}

// ---- wire format

func consumeField(b []byte) (pref.FieldNumber, int, int) {
	// minimal varint-tag parser
	tag, n := uvarint(b)
	if n <= 0 {
		return 0, 0, -1
	}
	switch tag & 7 {
	case 0:
		_, m := uvarint(b[n:])
		if m <= 0 {
			return 0, 0, -1
		}
		return pref.FieldNumber(tag >> 3), 0, n + m
	case 1:
		if len(b) < n+8 {
			return 0, 0, -1
		}
		return pref.FieldNumber(tag >> 3), 1, n + 8
	case 5:
		if len(b) < n+4 {
			return 0, 0, -1
		}
		return pref.FieldNumber(tag >> 3), 5, n + 4
	case 2:
		l, m := uvarint(b[n:])
		if m <= 0 || uint64(len(b)-n-m) < l {
			return 0, 0, -1
		}
		return pref.FieldNumber(tag >> 3), 2, n + m + int(l)
	}
	return 0, 0, -1
}

func uvarint(b []byte) (uint64, int) {
	var v uint64
	for i := 0; i < len(b) && i < 10; i++ {
		v |= uint64(b[i]&0x7f) << (7 * i)
		if b[i] < 0x80 {
			return v, i + 1
		}
	}
	return 0, -1
}

func (vm *VM) encVarint(out []Value, v Value, s Sort, signed bool) []Value {
	switch x := v.(type) {
	case bool:
		if x {
			return append(out, uint64(1))
		}
		return append(out, uint64(0))
	case uint64:
		u := x
		if signed {
			u = uint64(sext(s, x))
		}
		for u >= 0x80 {
			out = append(out, u&0x7f|0x80)
			u >>= 7
		}
		return append(out, u)
	case *Term:
		tt := vm.tt
		if x.sort == SBool {
			return append(out, val(tt.Ite(x, tt.Const(8, 1), tt.Const(8, 0))))
		}
		w := tt.Resize(x, 64, signed)
		for {
			if vm.branch(val(tt.Bin(OULt, w, tt.Const(64, 0x80)))) {
				return append(out, val(tt.Resize(w, 8, false)))
			}
			b := tt.Bin(OBOr, tt.Resize(w, 8, false), tt.Const(8, 0x80))
			out = append(out, val(b))
			w = tt.Bin(OLShr, w, tt.Const(64, 7))
		}
	}
	unsupported("encVarint %T", v)
	return nil
}

func (vm *VM) zigzag(v Value, s Sort) Value {
	switch x := v.(type) {
	case uint64:
		i := sext(s, x)
		return mask(s, uint64(i<<1)^uint64(i>>63))
	case *Term:
		tt := vm.tt
		return val(tt.Bin(OBXor, tt.Bin(OShl, x, tt.Const(s, 1)), tt.Bin(OAShr, x, tt.Const(s, uint64(s)-1))))
	}
	return nil
}

func (vm *VM) fixedBytes(out []Value, v Value, n int) []Value {
	switch x := v.(type) {
	case float32:
		v = uint64(math.Float32bits(x))
	case float64:
		v = math.Float64bits(x)
	case *Term:
		if x.sort == SF32 || x.sort == SF64 {
			v = vm.concFloatBits(x)
		}
	}
	for i := 0; i < n; i++ {
		switch x := v.(type) {
		case uint64:
			out = append(out, (x>>(8*i))&0xff)
		case *Term:
			out = append(out, val(vm.tt.Un(OExtract, 8, x, uint16(8*i+7), uint16(8*i))))
		}
	}
	return out
}

// concFloatBits introduces the bit pattern of a symbolic float.
func (vm *VM) concFloatBits(x *Term) Value {
	w := Sort(64)
	if x.sort == SF32 {
		w = 32
	}
	if x.op == OBitsToF {
		return val(x.args[0])
	}
	v := vm.tt.Var(vm.uniqName(fmt.Sprintf("fbits%d", x.id)), w)
	vm.inputs = append(vm.inputs, inputRec{name: v.name, t: v})
	c := val(vm.tt.Bin(OEq, vm.tt.Un(OBitsToF, x.sort, v, 0, 0), x))
	// make the current model agree so that no query is needed
	if vm.pos >= len(vm.prefix) {
		m := vm.merged(nil)
		m[v.id] = vm.tt.Eval(x, vm.model)
		vm.model = m
	}
	vm.assume(c)
	return v
}

func (vm *VM) encScalar(out []Value, fd pref.FieldDescriptor, v Value) []Value {
	switch fd.Kind() {
	case pref.BoolKind:
		return vm.encVarint(out, v, 8, false)
	case pref.Int32Kind, pref.EnumKind:
		return vm.encVarint(out, v, 32, true)
	case pref.Int64Kind:
		return vm.encVarint(out, v, 64, true)
	case pref.Uint32Kind:
		return vm.encVarint(out, v, 32, false)
	case pref.Uint64Kind:
		return vm.encVarint(out, v, 64, false)
	case pref.Sint32Kind:
		return vm.encVarint(out, vm.zigzag(v, 32), 32, false)
	case pref.Sint64Kind:
		return vm.encVarint(out, vm.zigzag(v, 64), 64, false)
	case pref.Fixed32Kind, pref.Sfixed32Kind, pref.FloatKind:
		return vm.fixedBytes(out, v, 4)
	case pref.Fixed64Kind, pref.Sfixed64Kind, pref.DoubleKind:
		return vm.fixedBytes(out, v, 8)
	case pref.StringKind:
		b := strBytes(v)
		vm.checkUTF8(v)
		out = vm.encVarint(out, uint64(len(b)), 64, false)
		return append(out, b...)
	case pref.BytesKind:
		b := strBytes(vm.sliceToStr(v.(SliceV)))
		out = vm.encVarint(out, uint64(len(b)), 64, false)
		return append(out, b...)
	case pref.MessageKind:
		b := vm.encMsg(v.(*Cell), vm.p.proto.infoFor(fd.Message()))
		out = vm.encVarint(out, uint64(len(b)), 64, false)
		return append(out, b...)
	}
	unsupported("encode %v", fd.Kind())
	return nil
}

type utf8Err struct{}

func (vm *VM) checkUTF8(v Value) {
	if s, ok := v.(string); ok {
		if !utf8.ValidString(s) {
			panic(utf8Err{})
		}
		return
	}
	for _, b := range v.(*SymStr).b {
		if t, ok := b.(*Term); ok {
			if vm.branch(val(vm.tt.Bin(OULt, t, vm.tt.Const(8, 0x80)))) {
				continue
			}
		} else if b.(uint64) < 0x80 {
			continue
		}
		if !utf8.ValidString(vm.concStr(v)) {
			panic(utf8Err{})
		}
		return
	}
}

func wireType(fd pref.FieldDescriptor) uint64 {
	switch fd.Kind() {
	case pref.Fixed32Kind, pref.Sfixed32Kind, pref.FloatKind:
		return 5
	case pref.Fixed64Kind, pref.Sfixed64Kind, pref.DoubleKind:
		return 1
	case pref.StringKind, pref.BytesKind, pref.MessageKind:
		return 2
	}
	return 0
}

// encMsg serialises a message in field-number order.
func (vm *VM) encMsg(c *Cell, mi *MsgInfo) []Value {
	var out []Value
	if c == nil {
		return nil
	}
	fs := append([]*FieldInfo{}, mi.fields...)
	sort.Slice(fs, func(i, j int) bool { return fs[i].fd.Number() < fs[j].fd.Number() })
	tag := func(fd pref.FieldDescriptor, wt uint64) {
		out = vm.encVarint(out, uint64(fd.Number())<<3|wt, 64, false)
	}
	for _, fi := range fs {
		if !vm.branch(vm.hasField(c, fi)) {
			continue
		}
		fd := fi.fd
		switch fi.kind {
		case fList:
			s := vm.fieldLoad(c, fi).(SliceV)
			if fd.IsPacked() {
				var in []Value
				for i := 0; i < s.len; i++ {
					in = vm.encScalar(in, fd, vm.load(&s.arr.e[s.off+i]))
				}
				tag(fd, 2)
				out = vm.encVarint(out, uint64(len(in)), 64, false)
				out = append(out, in...)
				continue
			}
			for i := 0; i < s.len; i++ {
				tag(fd, wireType(fd))
				out = vm.encScalar(out, fd, vm.load(&s.arr.e[s.off+i]))
			}
		case fMap:
			m := vm.fieldLoad(c, fi).(*MapV)
			for i := range m.keys {
				if !m.live[i] {
					continue
				}
				var in []Value
				in = vm.encVarint(in, 1<<3|wireType(fd.MapKey()), 64, false)
				in = vm.encScalar(in, fd.MapKey(), m.keys[i])
				in = vm.encVarint(in, 2<<3|wireType(fd.MapValue()), 64, false)
				in = vm.encScalar(in, fd.MapValue(), m.vals[i])
				tag(fd, 2)
				out = vm.encVarint(out, uint64(len(in)), 64, false)
				out = append(out, in...)
			}
		default:
			pv := vm.prefGet(&MsgHandle{c, mi}, fi)
			tag(fd, wireType(fd))
			out = vm.encScalar(out, fd, vm.unpref(fd, pv))
		}
	}
	u := vm.unknown(c, mi)
	for i := 0; i < u.len; i++ {
		out = append(out, vm.load(&u.arr.e[u.off+i]))
	}
	return out
}

type decErr struct{ msg string }

// decoder parses wire bytes that may be symbolic.
type decoder struct {
	vm *VM
	b  []Value
}

func (d *decoder) byte() Value {
	if len(d.b) == 0 {
		panic(decErr{"unexpected EOF"})
	}
	v := d.b[0]
	d.b = d.b[1:]
	return v
}

// varint returns a 64-bit value.
func (d *decoder) varint() Value {
	vm := d.vm
	tt := vm.tt
	var acc Value = uint64(0)
	for i := 0; i < 10; i++ {
		b := d.byte()
		var more bool
		switch x := b.(type) {
		case uint64:
			more = x >= 0x80
		case *Term:
			more = !vm.branch(val(tt.Bin(OULt, x, tt.Const(8, 0x80))))
		}
		if i == 9 {
			// the last byte may only hold one bit
			switch x := b.(type) {
			case uint64:
				if x > 1 {
					panic(decErr{"varint overflow"})
				}
			case *Term:
				if !vm.branch(val(tt.Bin(OULt, x, tt.Const(8, 2)))) {
					panic(decErr{"varint overflow"})
				}
			}
		}
		p, ok1 := acc.(uint64)
		q, ok2 := b.(uint64)
		if ok1 && ok2 {
			acc = p | (q&0x7f)<<(7*i)
		} else {
			low := tt.Bin(OBAnd, tt.Resize(vm.term(b, 8), 64, false), tt.Const(64, 0x7f))
			acc = val(tt.Bin(OBOr, vm.term(acc, 64), tt.Bin(OShl, low, tt.Const(64, uint64(7*i)))))
		}
		if !more {
			return acc
		}
	}
	panic(decErr{"varint overflow"})
}

func (d *decoder) fixed(n int) Value {
	var acc Value = uint64(0)
	vm := d.vm
	s := Sort(8 * n)
	for i := 0; i < n; i++ {
		b := d.byte()
		p, ok1 := acc.(uint64)
		q, ok2 := b.(uint64)
		if ok1 && ok2 {
			acc = p | q<<(8*i)
		} else {
			acc = val(vm.tt.Bin(OBOr, vm.term(acc, s), vm.tt.Bin(OShl, vm.tt.Resize(vm.term(b, 8), s, false), vm.tt.Const(s, uint64(8*i)))))
		}
	}
	return acc
}

func (d *decoder) bytes() []Value {
	n := d.vm.concBounded(d.varint(), uint64(len(d.b)))
	r := d.b[:n:n]
	d.b = d.b[n:]
	return r
}

// concBounded concretises a length, raising a decode error when it exceeds the limit.
func (vm *VM) concBounded(v Value, lim uint64) uint64 {
	switch x := v.(type) {
	case uint64:
		if x > lim {
			panic(decErr{"unexpected EOF"})
		}
		return x
	case *Term:
		if !vm.branch(val(vm.tt.Bin(OULe, x, vm.tt.Const(64, lim)))) {
			panic(decErr{"unexpected EOF"})
		}
		return vm.concretize(x, nil)
	}
	return 0
}

func (d *decoder) scalar(fd pref.FieldDescriptor, fi *FieldInfo) Value {
	vm := d.vm
	res := func(v Value, s Sort) Value {
		switch x := v.(type) {
		case uint64:
			return mask(s, x)
		case *Term:
			return val(vm.tt.Resize(x, s, false))
		}
		return nil
	}
	unzig := func(v Value, s Sort) Value {
		v = res(v, s)
		switch x := v.(type) {
		case uint64:
			return mask(s, (x>>1)^-(x&1))
		case *Term:
			tt := vm.tt
			return val(tt.Bin(OBXor, tt.Bin(OLShr, x, tt.Const(s, 1)), tt.Bin(OSub, tt.Const(s, 0), tt.Bin(OBAnd, x, tt.Const(s, 1)))))
		}
		return nil
	}
	switch fd.Kind() {
	case pref.BoolKind:
		switch x := d.varint().(type) {
		case uint64:
			return x != 0
		case *Term:
			return vm.not(val(vm.tt.Bin(OEq, x, vm.tt.Const(64, 0))))
		}
	case pref.Int32Kind, pref.EnumKind, pref.Uint32Kind:
		return res(d.varint(), 32)
	case pref.Int64Kind, pref.Uint64Kind:
		return d.varint()
	case pref.Sint32Kind:
		return unzig(d.varint(), 32)
	case pref.Sint64Kind:
		return unzig(d.varint(), 64)
	case pref.Fixed32Kind, pref.Sfixed32Kind:
		return d.fixed(4)
	case pref.Fixed64Kind, pref.Sfixed64Kind:
		return d.fixed(8)
	case pref.FloatKind:
		switch x := d.fixed(4).(type) {
		case uint64:
			return math.Float32frombits(uint32(x))
		case *Term:
			return val(vm.tt.Un(OBitsToF, SF32, x, 0, 0))
		}
	case pref.DoubleKind:
		switch x := d.fixed(8).(type) {
		case uint64:
			return math.Float64frombits(x)
		case *Term:
			return val(vm.tt.Un(OBitsToF, SF64, x, 0, 0))
		}
	case pref.StringKind:
		s := mkStr(d.bytes())
		func() {
			defer func() {
				if r := recover(); r != nil {
					if _, ok := r.(utf8Err); ok {
						panic(decErr{"string field contains invalid UTF-8"})
					}
					panic(r)
				}
			}()
			vm.checkUTF8(s)
		}()
		return s
	case pref.BytesKind:
		return strToSlice(mkStr(d.bytes()))
	case pref.MessageKind:
		mi := vm.p.proto.infoFor(fd.Message())
		c := vm.newMsg(mi)
		vm.decMsg(d.bytes(), c, mi)
		return c
	}
	unsupported("decode %v", fd.Kind())
	return nil
}

func (vm *VM) decMsg(b []Value, c *Cell, mi *MsgInfo) {
	d := &decoder{vm: vm, b: b}
	h := &MsgHandle{c, mi}
	for len(d.b) > 0 {
		start := d.b
		tag := d.varint()
		tv, ok := tag.(uint64)
		if !ok {
			tv = vm.concretize(tag.(*Term), nil)
		}
		num, wt := pref.FieldNumber(tv>>3), tv&7
		if num < 1 || tv>>3 > 1<<29-1 {
			panic(decErr{"invalid field number"})
		}
		fi := mi.byNum[num]
		skip := fi == nil
		if fi != nil {
			fd := fi.fd
			want := wireType(fd)
			if fi.kind == fMap {
				want = 2
			}
			switch {
			case fi.kind == fList && wt == 2 && want != 2:
				in := &decoder{vm: vm, b: d.bytes()}
				var els []Value
				for len(in.b) > 0 {
					els = append(els, in.scalar(fd, fi))
				}
				vm.fieldStore(c, fi, vm.appendVals(vm.fieldLoad(c, fi).(SliceV), els))
				continue
			case wt != want:
				skip = true
			case fi.kind == fMap:
				in := &decoder{vm: vm, b: d.bytes()}
				var k, v Value = zero(fi.keyT), nil
				if isMsgKind(fd.MapValue()) {
					v = vm.newMsg(vm.p.proto.infoFor(fd.MapValue().Message()))
				} else {
					v = zero(fi.elem)
				}
				for len(in.b) > 0 {
					t := in.varint()
					tu, ok := t.(uint64)
					if !ok {
						tu = vm.concretize(t.(*Term), nil)
					}
					switch {
					case tu>>3 == 1 && tu&7 == wireType(fd.MapKey()):
						k = in.scalar(fd.MapKey(), fi)
					case tu>>3 == 2 && tu&7 == wireType(fd.MapValue()):
						v = in.scalar(fd.MapValue(), fi)
					default:
						in.skip(tu & 7)
					}
				}
				m := vm.fieldLoad(c, fi).(*MapV)
				if m == nil {
					m = newMap(fi.keyT)
					vm.fieldStore(c, fi, m)
				}
				vm.mapSet(m, k, v)
			case fi.kind == fList:
				v := d.scalar(fd, fi)
				vm.fieldStore(c, fi, vm.appendVals(vm.fieldLoad(c, fi).(SliceV), []Value{v}))
			case isMsgKind(fd):
				smi := vm.p.proto.infoFor(fd.Message())
				pv := vm.prefMutable(h, fi)
				vm.decMsg(d.bytes(), pv.v.(IfaceV).v.(*MsgHandle).cell, smi)
			default:
				v := d.scalar(fd, fi)
				switch fi.kind {
				case fScalar, fBytesOpt:
					vm.fieldStore(c, fi, v)
				case fOpt:
					vm.fieldStore(c, fi, &Cell{v: v})
				case fOneof:
					vm.prefSet(h, fi, PRefValue{kind: normKind(fd.Kind()), v: v})
				}
			}
		}
		if skip {
			d.skip(wt)
			raw := start[:len(start)-len(d.b)]
			if mi.unk >= 0 {
				uc := &msgFields(c)[mi.unk]
				vm.store(uc, vm.appendVals(vm.load(uc).(SliceV), raw))
			}
		}
	}
}

func (d *decoder) skip(wt uint64) {
	switch wt {
	case 0:
		d.varint()
	case 1:
		d.fixed(8)
	case 5:
		d.fixed(4)
	case 2:
		d.bytes()
	default:
		panic(decErr{"unsupported wire type"})
	}
}
