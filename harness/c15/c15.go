// Package c15: paged list RPCs enumerate every item exactly once.
package c15

import (
	"context"
	"encoding/base64"
	"sort"
	"strconv"

	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/types/known/fieldmaskpb"
	"google.golang.org/protobuf/types/known/timestamppb"

	"github.com/smart-core-os/sc-api/go/traits"
	"github.com/smart-core-os/sc-api/go/types"

	"github.com/smart-core-os/sc-golang/internal/verif/hx"
	"github.com/smart-core-os/sc-golang/internal/verif/sym"
	"github.com/smart-core-os/sc-golang/pkg/resource"
	"github.com/smart-core-os/sc-golang/pkg/trait"
	"github.com/smart-core-os/sc-golang/pkg/trait/electricpb"
	"github.com/smart-core-os/sc-golang/pkg/trait/hailpb"
	"github.com/smart-core-os/sc-golang/pkg/trait/parentpb"
	"github.com/smart-core-os/sc-golang/pkg/trait/publicationpb"
	"github.com/smart-core-os/sc-golang/pkg/trait/vendingpb"
	"github.com/smart-core-os/sc-golang/pkg/trait/wastepb"
)

// page is one answer; items are told apart by a tag that is not their key.
type page struct {
	tags  []string
	next  string
	total int
	err   error
}

type request struct {
	size  int32
	token string
	mask  *fieldmaskpb.FieldMask
}

type lister func(request) page

// rpc is a paged RPC. make fills a new model with one item per id, item i being tagged by tag(ids[i]).
type rpc struct {
	name    string
	tag     string // path of the tag field
	key     string // path of the key field
	cleanID bool   // the model makes up an id for an item that has none
	make    func(ids []string) lister
}

// tag is a value for the item with the given id that ids cannot be confused with.
func tag(id string) string { return "#" + id }

func opts() []resource.Option {
	return []resource.Option{resource.WithClock(&hx.Clock{Hold: true})}
}

func tags[T any](items []T, tag func(T) string) (r []string) {
	for _, it := range items {
		r = append(r, tag(it))
	}
	return r
}

var rpcs = []rpc{
	{"electric.ListModes", "title", "id", true, func(ids []string) lister {
		m := electricpb.NewModel(opts()...)
		for _, id := range ids {
			ok(m.AddMode(&traits.ElectricMode{Id: id, Title: tag(id)}))
		}
		s := electricpb.NewModelServer(m)
		return func(r request) page {
			res, err := s.ListModes(context.Background(), &traits.ListModesRequest{PageSize: r.size, PageToken: r.token, ReadMask: r.mask})
			return page{tags(res.GetModes(), (*traits.ElectricMode).GetTitle), res.GetNextPageToken(), int(res.GetTotalSize()), err}
		}
	}},
	{"hail.ListHails", "origin", "id", false, func(ids []string) lister {
		o := opts()
		for _, id := range ids { // CreateHail makes ids up
			o = append(o, resource.WithInitialRecord(id, &traits.Hail{Id: id, Origin: &traits.Hail_Location{DisplayName: tag(id)}, State: traits.Hail_CALLED}))
		}
		m := hailpb.NewModel(o...)
		s := hailpb.NewModelServer(m)
		return func(r request) page {
			res, err := s.ListHails(context.Background(), &traits.ListHailsRequest{PageSize: r.size, PageToken: r.token, ReadMask: r.mask})
			return page{tags(res.GetHails(), func(h *traits.Hail) string { return h.GetOrigin().GetDisplayName() }), res.GetNextPageToken(), int(res.GetTotalSize()), err}
		}
	}},
	{"parent.ListChildren", "traits", "name", false, func(ids []string) lister {
		m := parentpb.NewModel()
		for _, id := range ids {
			m.AddChildTrait(id, trait.Name(tag(id)))
		}
		s := parentpb.NewModelServer(m)
		return func(r request) page {
			res, err := s.ListChildren(context.Background(), &traits.ListChildrenRequest{PageSize: r.size, PageToken: r.token, ReadMask: r.mask})
			return page{tags(res.GetChildren(), func(c *traits.Child) string {
				if len(c.Traits) != 1 {
					return "?"
				}
				return c.Traits[0].Name
			}), res.GetNextPageToken(), int(res.GetTotalSize()), err}
		}
	}},
	{"publication.ListPublications", "media_type", "id", true, func(ids []string) lister {
		m := publicationpb.NewModel(opts()...)
		for _, id := range ids {
			_, err := m.CreatePublication(&traits.Publication{Id: id, MediaType: tag(id)})
			ok(err)
		}
		s := publicationpb.NewModelServer(m)
		return func(r request) page {
			res, err := s.ListPublications(context.Background(), &traits.ListPublicationsRequest{PageSize: r.size, PageToken: r.token, ReadMask: r.mask})
			return page{tags(res.GetPublications(), (*traits.Publication).GetMediaType), res.GetNextPageToken(), int(res.GetTotalSize()), err}
		}
	}},
	{"vending.ListConsumables", "title", "name", true, func(ids []string) lister {
		m := vendingpb.NewModel(opts()...)
		for _, id := range ids {
			_, err := m.CreateConsumable(&traits.Consumable{Name: id, Title: tag(id)})
			ok(err)
		}
		s := vendingpb.NewModelServer(m)
		return func(r request) page {
			res, err := s.ListConsumables(context.Background(), &traits.ListConsumablesRequest{PageSize: r.size, PageToken: r.token, ReadMask: r.mask})
			return page{tags(res.GetConsumables(), (*traits.Consumable).GetTitle), res.GetNextPageToken(), int(res.GetTotalSize()), err}
		}
	}},
	{"vending.ListInventory", "used", "consumable", true, func(ids []string) lister {
		m := vendingpb.NewModel(opts()...)
		byAmount := map[float32]string{}
		for i, id := range ids {
			n := float32(i + 1)
			byAmount[n] = tag(id)
			_, err := m.CreateStock(&traits.Consumable_Stock{Consumable: id, Used: &traits.Consumable_Quantity{Amount: n}})
			ok(err)
		}
		s := vendingpb.NewModelServer(m)
		return func(r request) page {
			res, err := s.ListInventory(context.Background(), &traits.ListInventoryRequest{PageSize: r.size, PageToken: r.token, ReadMask: r.mask})
			return page{tags(res.GetInventory(), func(s *traits.Consumable_Stock) string {
				return byAmount[s.GetUsed().GetAmount()]
			}), res.GetNextPageToken(), int(res.GetTotalSize()), err}
		}
	}},
}

func depth(quick, thorough int) int {
	if sym.Thorough() {
		return thorough
	}
	return quick
}

func ok(err error) {
	if err != nil {
		sym.Fail("setup", err)
	}
}

// expected is what the concatenation of all pages must be.
func expected(ids []string) []string {
	ids = append([]string(nil), ids...)
	sort.Strings(ids)
	return tags(ids, tag)
}

func limit(size int32) int {
	switch {
	case size == 0:
		return 50
	case size > 1000:
		return 1000
	}
	return int(size)
}

func equal(a, b []string) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

// call is one call, it must not panic.
func call(l lister, r request) (p page) {
	if e := hx.Catch(func() { p = l(r) }); e != nil {
		sym.Fail("panic", e, "size", r.size, "token", r.token)
	}
	return p
}

// walk follows the tokens from the first page and checks every page. size is asked for each page.
func walk(name string, l lister, want []string, mask *fieldmaskpb.FieldMask, size func() int32) {
	var got []string
	token := ""
	for pages := 0; ; pages++ {
		n := size()
		p := call(l, request{n, token, mask})
		if p.err != nil {
			sym.Fail("page-error", name, p.err, "size", n, "token", token)
			return
		}
		sym.Assert("page-size", len(p.tags) <= limit(n), name, len(p.tags), "size", n)
		sym.Assert("total-size", p.total == len(want), name, p.total, "want", len(want))
		got = append(got, p.tags...)
		token = p.next
		if token == "" {
			break
		}
		if pages > len(want)+1 {
			sym.Fail("endless", name, "size", n, "items", len(want))
			return
		}
	}
	sym.Assert("every-item-once-in-order", equal(got, want), name, "got", got, "want", want)
}

func pick() rpc { return rpcs[sym.Choice("rpc", len(rpcs))] }

func masks(r rpc) *fieldmaskpb.FieldMask {
	switch sym.Choice("mask", 3) {
	case 1:
		return hx.Mask(r.tag)
	case 2:
		return hx.Mask(r.key, r.tag)
	}
	return nil
}

// letters makes n ids, prefixes of each other among them, in an order that is not the listing's.
func letters(n int) (ids []string) {
	for i := 0; i < n; i++ {
		id := string(rune('a' + (i*7+3)%13))
		for k := 0; k < i/13; k++ {
			id += id[:1]
		}
		ids = append(ids, id)
	}
	return ids
}

// CheckSizes asks for any page size, a different one for each page.
// gosym: time=90s thorough.time=300s paths=200000
func CheckSizes() {
	r := pick()
	n := sym.Choice("items", depth(5, 7))
	ids := letters(n)
	walk(r.name, r.make(ids), expected(ids), nil, func() int32 {
		s := sym.Int32("size")
		sym.Assume(s >= 0)
		return s
	})
	sym.Cover(r.name)
}

// CheckMasks lists under read masks, with and without the key.
// gosym: time=60s thorough.time=200s paths=100000
func CheckMasks() {
	r := pick()
	ids := letters(sym.Choice("items", depth(4, 7)))
	s := sym.Int32("size")
	sym.Assume(s >= 0)
	walk(r.name, r.make(ids), expected(ids), masks(r), func() int32 { return s })
}

var keys = []string{"a", "aa", "ab", "b", "a/b", "é", "\x01", "~", ""}

// CheckKeys lists items with peculiar ids.
// gosym: time=60s thorough.time=200s paths=100000
func CheckKeys() {
	r := pick()
	vocabulary := keys
	if r.cleanID {
		vocabulary = keys[:len(keys)-1]
	}
	var ids []string
	for _, k := range vocabulary {
		if len(ids) < 4 && sym.Flip("has "+k) {
			ids = append(ids, k)
		}
	}
	// a different order of creation
	for i, j := 0, len(ids)-1; i < j; i, j = i+1, j-1 {
		ids[i], ids[j] = ids[j], ids[i]
	}
	s := sym.Int32("size")
	sym.Assume(s > 0)
	walk(r.name, r.make(ids), expected(ids), nil, func() int32 { return s })
}

// CheckDefault is the default page size around its boundary, and one page size for all pages.
// gosym: time=90s thorough.time=300s paths=100000
func CheckDefault() {
	r := pick()
	n := []int{49, 50, 51, 60}[sym.Choice("items", depth(3, 4))]
	ids := letters(n)
	s := sym.Int32("size")
	if sym.Thorough() {
		sym.Assume(s >= 0)
	} else {
		sym.Assume(s == 0 || s >= 24 && s <= 30 || s >= 48)
	}
	walk(r.name, r.make(ids), expected(ids), nil, func() int32 { return s })
}

// CheckCap is the cap of the page size around its boundary.
// gosym: time=90s thorough.time=300s paths=100000 steps=200000000 gor=5000
func CheckCap() {
	r := rpcs[3]
	if sym.Thorough() {
		r = pick()
	}
	n := []int{999, 1000, 1001}[sym.Choice("items", 3)]
	var ids []string
	for i := 0; i < n; i++ {
		ids = append(ids, "i"+strconv.Itoa(i*17%n))
	}
	s := sym.Int32("size")
	sym.Assume(s >= 998)
	walk(r.name, r.make(ids), expected(ids), nil, func() int32 { return s })
}

// CheckNegative asks for a negative page size, on the first and on a later page.
// gosym: time=60s paths=100000
func CheckNegative() {
	r := pick()
	ids := letters(sym.Choice("items", 4))
	l := r.make(ids)
	token := ""
	if len(ids) > 1 && sym.Flip("later") {
		p := call(l, request{size: int32(sym.Choice("first", len(ids)-1) + 1)})
		token = p.next
	}
	s := sym.Int32("size")
	sym.Assume(s < 0)
	p := call(l, request{size: s, token: token})
	sym.Assert("negative-size", p.err != nil, r.name, "size", s, "items", p.tags)
}

// token checks a call with a token that may be anything.
func token(r rpc, l lister, want []string, tok string, wellFormed bool) {
	s := int32(1)
	if sym.Thorough() {
		s = int32(sym.Choice("size", 2))
	}
	p := call(l, request{size: s, token: tok})
	if !wellFormed {
		sym.Assert("malformed-token", p.err != nil, r.name, "token", tok)
	}
	for i := 0; p.err == nil && p.next != ""; i++ {
		if i > len(want)+1 {
			sym.Fail("endless", r.name, "size", s, "token", tok)
			return
		}
		p = call(l, request{size: s, token: p.next})
		if p.err != nil {
			sym.Fail("page-error", r.name, p.err)
		}
	}
}

// malformed tells by the definition of a token whether it names the last resource of the page before.
func malformed(tok string) bool {
	b, err := base64.StdEncoding.DecodeString(tok)
	if err != nil {
		return true
	}
	t := &types.PageToken{}
	if err := proto.Unmarshal(b, t); err != nil {
		return true
	}
	_, ok := t.PageStart.(*types.PageToken_LastResourceName)
	return !ok
}

// raw is n bytes, the first of few in the quick tier: the keys of the token's two fields, another's and invalid ones.
func raw(n int) string {
	s := sym.StringN("raw", n)
	if !sym.Thorough() {
		c := s[0]
		sym.Assume(c == 0x08 || c == 0x12 || c == 0x1a || c == 0 || c == 0x80)
		if n > 1 {
			c := s[1]
			sym.Assume(c < 3 || c == 'a' || c >= 0x7e && c < 0x82)
		}
	}
	return s
}

// text is n characters, of a small alphabet in the quick tier.
func text(name string, n int) string {
	if sym.Thorough() {
		return sym.StringN(name, n)
	}
	const alphabet = "AEg/=-\n\xff"
	var b []byte
	for i := 0; i < n; i++ {
		b = append(b, alphabet[sym.Choice(name, len(alphabet))])
	}
	return string(b)
}

// CheckTokenBytes sends the encoding of a few bytes.
// gosym: time=60s thorough.time=200s paths=100000
func CheckTokenBytes() {
	r := pick()
	ids := letters(2)
	tok := base64.StdEncoding.EncodeToString([]byte(raw(sym.Choice("len", depth(2, 3)) + 1)))
	token(r, r.make(ids), ids, tok, !malformed(tok))
}

// CheckTokenText sends any short text.
// gosym: time=60s thorough.time=200s paths=100000
func CheckTokenText() {
	r := pick()
	ids := letters(2)
	n := []int{2, 1, 3}[sym.Choice("len", depth(1, 3))]
	tok := text("token", n)
	switch {
	case n == 2 && sym.Flip("pad"):
		tok += "=="
	case n == 3:
		tok += "="
	}
	token(r, r.make(ids), ids, tok, !malformed(tok))
}

// CheckTokenCorrupt cuts or alters a token the server made.
// gosym: time=60s thorough.time=200s paths=100000
func CheckTokenCorrupt() {
	r := pick()
	ids := letters(2)
	l := r.make(ids)
	tok := call(l, request{size: 1}).next
	if tok == "" {
		sym.Fail("no-token", r.name)
		return
	}
	switch sym.Choice("how", 4) {
	case 0:
		tok = tok[:sym.Choice("cut", len(tok)-1)+1]
	case 1:
		i := sym.Choice("at", len(tok))
		tok = tok[:i] + text("byte", 1) + tok[i+1:]
	case 2:
		tok = "\n"
	case 3:
		b, _ := proto.Marshal(&types.PageToken{PageStart: &types.PageToken_LastOffset{LastOffset: int32(sym.Choice("offset", 3)) - 1}})
		tok = base64.StdEncoding.EncodeToString(b)
	}
	token(r, l, ids, tok, !malformed(tok))
}

// CheckTokenKey sends a token that names no item: the listing goes on after the name.
// gosym: time=60s paths=100000
func CheckTokenKey() {
	r := pick()
	ids := []string{"d", "b", "f"}
	name := string([]byte{byte(sym.Int("c", 'a', 'h'))})
	b, _ := proto.Marshal(&types.PageToken{PageStart: &types.PageToken_LastResourceName{LastResourceName: name}})
	p := call(r.make(ids), request{token: base64.StdEncoding.EncodeToString(b)})
	if p.err != nil {
		return
	}
	var want []string
	for _, id := range []string{"b", "d", "f"} {
		if id > name {
			want = append(want, tag(id))
		}
	}
	sym.Assert("after-key", equal(p.tags, want), r.name, name, p.tags)
}

// ---- waste: the model starts with 100 records of its own

func waste(n int) (lister, []string) {
	m := wastepb.NewModel(resource.WithClock(&hx.Clock{Hold: true}))
	have := m.GetWasteRecordCount()
	var want []string
	for i := n - 1; i >= 0; i-- {
		want = append(want, "w"+strconv.Itoa(i))
	}
	for i := 0; i < n; i++ {
		_, err := m.AddWasteRecord(&traits.WasteRecord{Id: "w" + strconv.Itoa(i), WasteCreateTime: &timestamppb.Timestamp{Seconds: 5000000000 + int64(i)}})
		ok(err)
	}
	for i := have - 1; i >= 0; i-- {
		want = append(want, strconv.Itoa(i))
	}
	s := wastepb.NewModelServer(m)
	return func(r request) page {
		res, err := s.ListWasteRecords(context.Background(), &traits.ListWasteRecordsRequest{PageSize: r.size, PageToken: r.token, ReadMask: r.mask})
		return page{tags(res.GetWasteRecords(), (*traits.WasteRecord).GetId), res.GetNextPageToken(), int(res.GetTotalSize()), err}
	}, want
}

// CheckWaste lists with one page size for all pages.
// gosym: time=90s thorough.time=300s steps=50000000
func CheckWaste() {
	l, want := waste(sym.Choice("more", 3))
	s := sym.Int32("size")
	if sym.Thorough() {
		sym.Assume(s >= 0)
	} else {
		sym.Assume(s == 0 || s == 1 || s == 7 || s >= 20 && s <= 26 || s >= 32 && s < 36 || s >= 48 && s < 53 || s > 97)
	}
	walk("waste.ListWasteRecords", l, want, nil, func() int32 { return s })
}

// CheckWasteSizes lists with a different page size for each page.
// gosym: time=60s thorough.time=200s steps=50000000
func CheckWasteSizes() {
	l, want := waste(0)
	walk("waste.ListWasteRecords", l, want, nil, func() int32 {
		s := sym.Int32("size")
		sym.Assume(s == 0 || s >= 31 && s <= 34 || s > 98)
		return s
	})
}

// CheckWasteCap is the cap of the page size around its boundary.
// gosym: time=90s thorough.time=200s steps=200000000 gor=5000
func CheckWasteCap() {
	l, want := waste([]int{900, 899, 901}[sym.Choice("more", depth(1, 3))])
	s := sym.Int32("size")
	sym.Assume(s >= 998)
	walk("waste.ListWasteRecords", l, want, nil, func() int32 { return s })
}

// CheckWasteBad sends negative sizes and tokens that are no position in the list.
// gosym: time=60s thorough.time=200s
func CheckWasteBad() {
	l, want := waste(0)
	if sym.Flip("negative") {
		s := sym.Int32("size")
		sym.Assume(s < 0)
		tok := ""
		if sym.Flip("later") {
			tok = call(l, request{size: 10}).next
		}
		p := call(l, request{size: s, token: tok})
		sym.Assert("negative-size", p.err != nil, "size", s, "items", p.tags)
		return
	}
	var tok string
	bad := true
	switch sym.Choice("token", 7) {
	case 0:
		tok = "-" + strconv.Itoa(sym.Choice("n", 3)+1)
	case 1:
		tok = strconv.Itoa(len(want) + 1 + sym.Choice("n", 3))
	case 2:
		tok = "x"
	case 3:
		tok = "9999999999999999999"
	case 4:
		tok = "1e1"
	case 5: // any two characters
		tok = sym.StringN("text", depth(1, 2))
		bad = false
		for i := range tok {
			if tok[i] < '0' || tok[i] > '9' {
				bad = bad || !(i == 0 && (tok[i] == '+' || tok == "-0") && len(tok) > 1)
			}
		}
	case 6:
		tok, bad = strconv.Itoa(sym.Choice("n", 5)), false
	}
	s := int32(sym.Choice("size", 3) * 40)
	p := call(l, request{size: s, token: tok})
	if bad {
		sym.Assert("malformed-token", p.err != nil, "token", tok, p.tags)
	}
	for i := 0; p.err == nil && p.next != ""; i++ {
		if i > len(want)+1 {
			sym.Fail("endless", "token", tok)
			return
		}
		p = call(l, request{size: s, token: p.next})
	}
}
