package main

import (
	"fmt"
	"reflect"
	"strings"
	"time"

	"github.com/greenpau/go-identity/pkg/verifbridge"
)

func init() {
	register(&Property{
		ID: "C28", Level: "exploration", Quick: 420 * time.Second, Thorough: 12 * minute,
		Rule:        "all structs of one field over (field name and type) x (absent, right, wrong, dash, option-less, differently spelt values of each of the three tags), of two and three fields over a smaller menu of values, some with unexported fields among them, under all sixteen option combinations, and no options; and all types that are not structs. The answer is compared with the list of tags that a direct reading of the statement finds missing or differing. Non-trivial: structs with at least one fault",
		Assumptions: []string{"whether a missing tag counts as differing from the expected one when only the check for presence is switched off is not decided", "names are those whose snake case is beyond doubt", "values given to the checker are pointers"},
		Run:         runC28,
	})
}

// tagFields are exported fields and the expected values of their tags.
var tagFields = []struct {
	name, snake string
	typ         reflect.Type
}{
	{"Name", "name", reflect.TypeOf("")},
	{"UserID", "user_id", reflect.TypeOf(0)},
	{"ExpiresAt", "expires_at", reflect.TypeOf(time.Time{})},
	{"ID", "id", reflect.TypeOf("")},
	{"FingerprintMD5", "fingerprint_md5", reflect.TypeOf("")},
	{"OpenSSH", "openssh", reflect.TypeOf("")},
	{"OpenSSHKey", "openssh_key", reflect.TypeOf([]byte{})},
	{"APIKeys", "api_keys", reflect.TypeOf([]string{})},
	{"X", "x", reflect.TypeOf(map[string]int{})},
	{"RelyingPartyURL", "relying_party_url", reflect.TypeOf(&struct{ a int }{})},
	{"Username", "username", reflect.TypeOf((*error)(nil)).Elem()},
	{"IsMfaToken", "is_mfa_token", reflect.TypeOf(func() {})},
}

const absentTag = "\x00"

var requiredTags = []string{"json", "xml", "yaml"}

// tagValues is a menu of values of a tag of a field.
func tagValues(snake string, n int) []string {
	list := []string{absentTag, snake + ",omitempty", "-", snake, "x" + snake, "", snake + ",omitempty,", strings.ToUpper(snake) + ",omitempty", ",omitempty", "-,", snake + ", omitempty", snake + "s,omitempty", " " + snake, strings.ReplaceAll(snake, "_", "-") + ",omitempty", snake + ",omitempty,string"}
	return list[:n]
}

// taggedField makes a field with the given values of its tags.
func taggedField(i int, vals [3]string, extra int) reflect.StructField {
	var parts []string
	for j, t := range requiredTags {
		if vals[j] != absentTag {
			parts = append(parts, fmt.Sprintf("%s:%q", t, vals[j]))
		}
	}
	switch extra {
	case 1:
		parts = append([]string{`db:"other"`}, parts...)
	case 2:
		for a, b := 0, len(parts)-1; a < b; a, b = a+1, b-1 {
			parts[a], parts[b] = parts[b], parts[a]
		}
	}
	return reflect.StructField{Name: tagFields[i].name, Type: tagFields[i].typ, Tag: reflect.StructTag(strings.Join(parts, " "))}
}

func hiddenField(name string, tag reflect.StructTag) reflect.StructField {
	return reflect.StructField{Name: name, PkgPath: "example.com/x", Type: reflect.TypeOf(""), Tag: tag}
}

// Names made of words and initials; each piece is written in small letters,
// underscores between them, except that OpenSSH is one word.
var (
	nameWords    = []string{"Name", "User", "Key", "Is", "Status", "At", "Idle", "Of", "Omit", "Empty", "Tag", "Open", "Ssh", "Json", "Md", "Url", "Key", "Address"}
	nameInitials = []string{"ID", "URL", "API", "MFA", "SSH", "QR", "JSON", "XML", "IP"}

	composedNames = func() map[string]string {
		m := map[string]string{}
		var walk func(name, snake string, n int, initials bool)
		walk = func(name, snake string, n int, initials bool) {
			if name != "" && !strings.Contains(snake, "open_ssh") {
				m[name] = snake
			}
			if n == 3 {
				return
			}
			under := ""
			if name != "" {
				under = "_"
			}
			for _, w := range nameWords {
				walk(name+w, snake+under+strings.ToLower(w), n+1, false)
			}
			if !initials { // two in a row read as one
				for _, w := range nameInitials {
					walk(name+w, snake+under+strings.ToLower(w), n+1, true)
				}
			}
		}
		walk("", "", 0, false)
		for _, k := range sortedNames(m) {
			if last := k[len(k)-1]; last >= 'a' {
				m[k+"MD5"] = m[k] + "_md5"
			}
			if k[1] >= 'a' {
				m["OpenSSH"+k] = "openssh_" + m[k]
			}
		}
		return m
	}()
)

// complaint is a fault of a tag of a field.
type complaint struct {
	tag, field string
	missing    bool
}

var embeddedNames = map[string]string{"Embedded": "embedded", "EmbeddedKind": "embedded_kind", "EmbeddedList": "embedded_list"}

// checkTags compares the checker's answer on a struct.
func checkTags(v *V, t reflect.Type, o *verifbridge.TagOptions) {
	opts := verifbridge.TagOptions{}
	if o != nil {
		opts = *o
	}
	var want []complaint
	for i := 0; i < t.NumField() && !opts.Disabled; i++ {
		f := t.Field(i)
		if f.PkgPath != "" {
			continue
		}
		snake := ""
		for _, x := range tagFields {
			if x.name == f.Name {
				snake = x.snake
			}
		}
		if x, ok := composedNames[f.Name]; ok {
			snake = x
		}
		if x, ok := embeddedNames[f.Name]; ok {
			snake = x
		}
		if strings.HasPrefix(f.Name, "Many") {
			snake = strings.ToLower(f.Name)
		}
		if !opts.DisableTagOnEmpty {
			snake += ",omitempty"
		}
		for _, name := range requiredTags {
			got := f.Tag.Get(name)
			if got == "-" {
				break
			}
			if got == "" {
				if !opts.DisableTagPresent {
					want = append(want, complaint{name, f.Name, true})
				} else if !opts.DisableTagMismatch {
					return // not decided
				}
			} else if got != snake && !opts.DisableTagMismatch {
				want = append(want, complaint{name, f.Name, false})
			}
		}
	}
	v.Count("evaluations", 1)
	if len(want) > 0 {
		v.State("distinct_nontrivial", fmt.Sprint(t, opts))
	}
	fail := func(f string, a ...interface{}) {
		v.Fail(fmt.Sprint(t, "|", opts), "%v with %+v: %s", t, o, fmt.Sprintf(f, a...))
	}
	var lines []string
	var err error
	if p := protect(func() { lines, err = verifbridge.GetTagCompliance(reflect.New(t).Interface(), o) }); p != "" {
		fail("%s", p)
		return
	}
	if (err != nil) != (len(want) > 0) {
		fail("%v, and the faults are %v", err, want)
		return
	}
	var got []string
	for _, l := range lines {
		if strings.HasPrefix(l, "tag ") {
			got = append(got, l)
		}
	}
	if len(got) != len(want) || len(want) == 0 && len(lines) > 0 {
		fail("the lines are %q, and the faults are %v", lines, want)
		return
	}
	used := make([]bool, len(got))
next:
	for _, w := range want {
		for i, l := range got {
			if !used[i] && strings.Contains(l, fmt.Sprintf("%q", w.tag)) && strings.Contains(l, "."+w.field+" ") && strings.Contains(l, "not found") == w.missing {
				used[i] = true
				continue next
			}
		}
		fail("the lines are %q, without one for %v", lines, w)
		return
	}
	if len(want) > 0 && v.WantSample() {
		v.Sample(map[string]interface{}{"struct": t.String(), "options": fmt.Sprintf("%+v", opts), "faults": fmt.Sprint(want)})
	}
}

// namedTags are types with names.
type (
	namedRight struct {
		Name   string `json:"name,omitempty" xml:"name,omitempty" yaml:"name,omitempty"`
		hidden string
		UserID string `json:"user_id,omitempty" xml:"user_id,omitempty" yaml:"user_id,omitempty"`
	}
	namedWrong struct {
		hidden int `json:"x"`
		Name   string
		UserID string `json:"-"`
		ID     string `json:"id,omitempty" xml:"id" yaml:"-"`
	}
	// Embedded and the others are embedded.
	Embedded struct {
		X int
	}
	EmbeddedKind  int
	EmbeddedList  []string
	namedEmbedded struct {
		namedWrong
		Name string `json:"name" xml:"name" yaml:"name"`
	}
)

func runC28(c *Ctx) {
	var opts []*verifbridge.TagOptions
	opts = append(opts, nil)
	for m := 0; m < 16; m++ {
		opts = append(opts, &verifbridge.TagOptions{Disabled: m&1 != 0, DisableTagPresent: m&2 != 0, DisableTagMismatch: m&4 != 0, DisableTagOnEmpty: m&8 != 0})
	}
	all := func(v *V, t reflect.Type) {
		for _, o := range opts {
			checkTags(v, t, o)
		}
	}
	triples := func(snake string, n int) (out [][3]string) {
		l := tagValues(snake, n)
		for _, a := range l {
			for _, b := range l {
				for _, d := range l {
					out = append(out, [3]string{a, b, d})
				}
			}
		}
		return
	}
	one := 15
	two := 5
	if c.Thorough {
		two = 8
	}
	for i, f := range tagFields {
		c.Case("one/"+f.name, func(v *V) {
			for _, vals := range triples(f.snake, one) {
				if c.Expired() || v.Failed() {
					return
				}
				for extra := 0; extra < 3; extra++ {
					all(v, reflect.StructOf([]reflect.StructField{taggedField(i, vals, extra)}))
				}
			}
		})
		c.Case("menu/"+f.name, func(v *V) {
			for j := range requiredTags {
				for _, val := range tagValues(f.snake, 15) {
					for _, rest := range []string{f.snake, f.snake + ",omitempty"} {
						vals := [3]string{rest, rest, rest}
						vals[j] = val
						for extra := 0; extra < 3; extra++ {
							all(v, reflect.StructOf([]reflect.StructField{taggedField(i, vals, extra)}))
						}
					}
				}
			}
		})
	}
	for i := range tagFields {
		j := (i + 1) % len(tagFields)
		if i > 2 && !c.Thorough {
			continue
		}
		for k, a := range triples(tagFields[i].snake, two) {
			c.Case(fmt.Sprintf("two/%d/%d", i, k), func(v *V) {
				for n, b := range triples(tagFields[j].snake, two) {
					if c.Expired() || v.Failed() {
						return
					}
					fs := []reflect.StructField{taggedField(i, a, 0), taggedField(j, b, 0)}
					switch n % 4 {
					case 1:
						fs = append([]reflect.StructField{hiddenField("hidden", "")}, fs...)
					case 2:
						fs = []reflect.StructField{fs[0], hiddenField("h", `json:"wrong"`), fs[1]}
					case 3:
						fs = append(fs, hiddenField("aB", `json:"-"`))
					}
					all(v, reflect.StructOf(fs))
				}
			})
		}
	}
	// Three fields of which each is right, wrong, missing or left out.
	kinds := func(snake string) [][3]string {
		r := snake + ",omitempty"
		return [][3]string{{r, r, r}, {snake, snake, snake}, {absentTag, absentTag, absentTag}, {"-", absentTag, absentTag}, {r, r, "x"}, {r, "-", "x"}, {r, absentTag, "x"}}
	}
	c.Case("three", func(v *V) {
		for _, a := range kinds(tagFields[0].snake) {
			for _, b := range kinds(tagFields[4].snake) {
				for _, d := range kinds(tagFields[2].snake) {
					for h := 0; h < 4; h++ {
						fs := []reflect.StructField{taggedField(0, a, 0), taggedField(4, b, 1), taggedField(2, d, 2)}
						if h < 3 {
							fs = append(fs[:h], append([]reflect.StructField{hiddenField("hidden", "")}, fs[h:]...)...)
						}
						all(v, reflect.StructOf(fs))
					}
				}
			}
		}
	})
	// Many fields, with one that is not exported at any place, and one that is
	// wrong at another.
	sizes := []int{2, 4, 8, 9, 16, 17, 31, 32, 33, 63, 64, 65, 66, 70, 127, 128, 129}
	if c.Thorough {
		sizes = append(sizes, 200, 255, 256, 257, 300)
	}
	for _, n := range sizes {
		c.Case(fmt.Sprintf("many/%d", n), func(v *V) {
			field := func(i int, right bool) reflect.StructField {
				name := fmt.Sprintf("Many%c%c", 'a'+i/26, 'a'+i%26)
				vals := [3]string{"", "", ""}
				for k := range vals {
					vals[k] = strings.ToLower(name) + ",omitempty"
				}
				if !right {
					vals[i%3] = []string{absentTag, "x"}[i%2]
				}
				f := taggedField(0, vals, 0)
				f.Name = name
				return f
			}
			places := func() (out []int) {
				for i := 0; i < n; i++ {
					if n <= 17 || i < 3 || i >= n-3 || i%16 <= 1 || i%16 == 15 {
						out = append(out, i)
					}
				}
				return append(out, -1)
			}
			for _, h := range places() {
				for _, bad := range places() {
					if c.Expired() || v.Failed() {
						return
					}
					if h == bad && h >= 0 {
						continue
					}
					var fs []reflect.StructField
					for i := 0; i < n; i++ {
						if i == h {
							fs = append(fs, hiddenField(fmt.Sprintf("f%d", i), ""))
						} else {
							fs = append(fs, field(i, i != bad))
						}
					}
					all(v, reflect.StructOf(fs))
				}
			}
			// More of the same kind than of the other.
			for _, p := range []int{2, 3, 5} {
				for r := 0; r < p; r++ {
					var fs, gs []reflect.StructField
					for i := 0; i < n; i++ {
						if i%p == r {
							fs = append(fs, hiddenField(fmt.Sprintf("f%d", i), ""))
							gs = append(gs, field(i, false))
						} else {
							fs = append(fs, field(i, i%2 == 0))
							gs = append(gs, field(i, true))
						}
					}
					all(v, reflect.StructOf(fs))
					all(v, reflect.StructOf(gs))
				}
			}
		})
	}
	names := sortedNames(composedNames)
	for part := 0; part < 32; part++ {
		c.Case(fmt.Sprintf("names/%d", part), func(v *V) {
			for n, name := range names {
				if n%32 != part {
					continue
				}
				if c.Expired() || v.Failed() {
					return
				}
				snake := composedNames[name]
				for _, x := range []string{snake + ",omitempty", snake, strings.Replace(snake, "_", "", 1) + ",omitempty", snake + "s,omitempty"} {
					f := reflect.StructField{Name: name, Type: reflect.TypeOf(""), Tag: reflect.StructTag(fmt.Sprintf("json:%q xml:%q yaml:%q", x, x, x))}
					checkTags(v, reflect.StructOf([]reflect.StructField{f}), nil)
				}
			}
		})
	}
	c.Case("hidden", func(v *V) {
		for _, name := range []string{"a", "aB", "_", "_A", "é", "ж", "αB", "世", "ß", "ǆ", "ἀ", "ñandu", "a1"} {
			for _, tag := range []reflect.StructTag{"", `json:"x" xml:"x" yaml:"x"`, `json:"-"`} {
				h := hiddenField(name, tag)
				all(v, reflect.StructOf([]reflect.StructField{h}))
				for _, k := range kinds(tagFields[1].snake) {
					f := taggedField(1, k, 0)
					all(v, reflect.StructOf([]reflect.StructField{f, h}))
					all(v, reflect.StructOf([]reflect.StructField{h, f}))
				}
			}
		}
	})
	// An embedded type is a field like any other.
	c.Case("embedded", func(v *V) {
		for _, t := range []reflect.Type{reflect.TypeOf(Embedded{}), reflect.TypeOf(&Embedded{}), reflect.TypeOf(EmbeddedKind(0)), reflect.TypeOf(EmbeddedList(nil))} {
			name := t.Name()
			if t.Kind() == reflect.Ptr {
				name = t.Elem().Name()
			}
			snake := embeddedNames[name]
			for _, vals := range triples(snake, 5) {
				tag := ""
				for i, k := range []string{"json", "xml", "yaml"} {
					if vals[i] != absentTag {
						tag += fmt.Sprintf(" %s:%q", k, vals[i])
					}
				}
				f := reflect.StructField{Name: name, Type: t, Anonymous: true, Tag: reflect.StructTag(strings.TrimSpace(tag))}
				all(v, reflect.StructOf([]reflect.StructField{f}))
				all(v, reflect.StructOf([]reflect.StructField{f, taggedField(1, [3]string{absentTag, "-", absentTag}, 0)}))
				if v.Failed() {
					return
				}
			}
		}
	})
	c.Case("exported", func(v *V) {
		for _, name := range []string{"É", "Ж", "Ω", "Ǆ", "Ἀ", "Ა", "Ａ", "𐐀"} {
			for _, vals := range [][3]string{{absentTag, absentTag, absentTag}, {"-", absentTag, absentTag}, {absentTag, "-", absentTag}} {
				f := taggedField(0, vals, 0)
				f.Name = name
				all(v, reflect.StructOf([]reflect.StructField{f}))
				all(v, reflect.StructOf([]reflect.StructField{taggedField(0, [3]string{"-"}, 0), f}))
			}
		}
	})
	c.Case("named", func(v *V) {
		all(v, reflect.TypeOf(struct{}{}))
		all(v, reflect.TypeOf(namedRight{}))
		all(v, reflect.TypeOf(namedWrong{}))
		all(v, reflect.TypeOf(namedEmbedded{}))
		for _, x := range []interface{}{new(int), new(string), &[]namedRight{}, &map[string]namedRight{}, new(func()), new(interface{}), new(*namedRight), &[2]namedRight{}, new(chan int), new(error)} {
			for _, o := range opts {
				v.Count("evaluations", 1)
				var lines []string
				var err error
				p := protect(func() { lines, err = verifbridge.GetTagCompliance(x, o) })
				off := o != nil && o.Disabled
				if p != "" || (err == nil) != off || len(lines) > 0 {
					v.Fail(fmt.Sprintf("%T", x), "%T with %+v: %s %q %v", x, o, p, lines, err)
				}
			}
		}
	})
}
