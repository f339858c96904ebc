package main

import (
	stderrors "errors"
	"fmt"
	"reflect"
	"strings"
	"time"

	identity "github.com/greenpau/go-identity"
	"github.com/greenpau/go-identity/pkg/errors"
)

func init() {
	register(&Property{
		ID: "C29", Level: "model_checking", Quick: 420 * time.Second, Thorough: 12 * minute,
		Rule:        "all sequences of up to five additions (six for thorough; fewer where that makes more than 250,000, 8 million for thorough) of issuers and associations over every listed name and alias, its lower-case, upper-case and title forms, texts with white space, prefixes, and unlisted texts, for every issuer list of a family in which names and aliases collide in every way; two cards in turn; the list exchanged or changed in place between two additions; and every entry and alias of lists of many sizes; the state (issuer, association, other fields) is compared with a reference after every step",
		Assumptions: []string{"the list of issuers is empty in the package and is filled by the embedding program", "identity of an issuer is that of the listed pointer; when two listed entries match, the first one counts"},
		Run:         runC29,
	})
}

// lowerText is the lower-case form of an ASCII text.
func lowerText(s string) string {
	b := []byte(s)
	for i := range b {
		if b[i] >= 'A' && b[i] <= 'Z' {
			b[i] += 'a' - 'A'
		}
	}
	return string(b)
}

func runC29(c *Ctx) {
	is := func(name string, aliases ...string) *identity.CreditCardIssuer {
		return &identity.CreditCardIssuer{Name: name, Aliases: aliases}
	}
	lists := map[string][]*identity.CreditCardIssuer{
		"none":      {},
		"one":       {is("Citigroup", "citi", "Citi Bank")},
		"two":       {is("Capital One", "CapOne"), is("Citigroup", "citi")},
		"names":     {is("Bank"), is("bank"), is("BANK")},
		"alias":     {is("First", "second"), is("Second", "first")},
		"aliases":   {is("First", "Shared", "a"), is("Other", "shared", "A"), is("Third", "SHARED")},
		"bare":      {is("", ""), is("X")},
		"long":      {is("First"), is("Second", "s1", "S2", "s3"), is("Third", "T1"), is("Fourth", "f1", "F2", "Fourth")},
		"spaced":    {is(" Bank ", "a bank", "Bank\t"), is("Bank")},
		"nilalias":  {{Name: "Solo"}, {Name: "Duo", Aliases: []string{}}},
		"self":      {is("Self", "self", "Self", "SELF")},
		"duplicate": {is("Same", "one"), is("Same", "two")},
	}
	// Lists of every size up to a bound, each entry found by each of its names.
	sized := []int{3, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257}
	if c.Thorough {
		sized = append(sized, 511, 512, 513, 1023, 1024, 1025, 4097)
	}
	for _, n := range sized {
		var l []*identity.CreditCardIssuer
		for i := 0; i < n; i++ {
			// Names in no order, and aliases that begin alike.
			l = append(l, is(fmt.Sprintf("Bank %d of %d", (i*7+3)%n, n), fmt.Sprintf("B%d", i), fmt.Sprintf("Alias-%d", n-i)))
		}
		lists[fmt.Sprintf("sized-%04d", n)] = l
		var one []string
		for i := 0; i < n; i++ {
			one = append(one, fmt.Sprintf("Alias %d", (i*5+1)%n), fmt.Sprintf("a%d", i))
		}
		lists[fmt.Sprintf("aliased-%04d", n)] = []*identity.CreditCardIssuer{is("Before", "b"), is("Many", one...), is("After", "Alias 1", "c")}
	}
	c.Case("associations", func(v *V) {
		if got := len(identity.CreditCardAssociations); got != 5 {
			v.Fail("associations", "%d associations are listed", got)
		}
		for _, want := range []string{"American Express", "Diners Club", "Discover", "Mastercard", "Visa"} {
			n := 0
			for _, a := range identity.CreditCardAssociations {
				if a.Name == want {
					n++
				}
			}
			if n != 1 {
				v.Fail("associations", "%q is listed %d times", want, n)
			}
		}
		v.Count("traces_validated_against_impl", 1)
	})
	// Issuer lists are a global of the package: each process runs one case at
	// a time.
	withList := func(list []*identity.CreditCardIssuer, f func()) {
		saved := identity.CreditCardIssuers
		defer func() { identity.CreditCardIssuers = saved }()
		identity.CreditCardIssuers = list
		f()
	}
	for _, key := range sortedNames(lists) {
		key, list := key, lists[key]
		c.Case("cards/"+key, func(v *V) {
			withList(list, func() {
				image := fmt.Sprint(dumpIssuers(list), dumpAssociations())
				every := cardOps(list)
				run := func(seq []cardOp) { runCards(v, key, seq, 1) }
				for _, o := range every {
					run([]cardOp{o})
				}
				if len(every) < 150 || c.Thorough && len(every) < 800 {
					for _, o := range every {
						for _, p := range every {
							if c.Expired() || v.Failed() {
								return
							}
							run([]cardOp{o, p})
						}
					}
					depth := 5
					if c.Thorough {
						depth = 6
					}
					walkCards(c, v, fewCards(every, 2), depth, run)
				}
				if now := fmt.Sprint(dumpIssuers(list), dumpAssociations()); now != image {
					v.Fail(key, "the lists have become %s", now)
				}
			})
		})
	}
	// All texts close to a listed one.
	for _, key := range []string{"one", "aliases", "spaced", "long"} {
		key, list := key, lists[key]
		c.Case("similar/"+key, func(v *V) {
			withList(list, func() {
				for _, o := range cardOps(list) {
					if o.card != 0 || o.text == "" {
						continue
					}
					for _, t := range distinct(edits(o.text), decorations(o.text)) {
						if c.Expired() || v.Failed() {
							return
						}
						runCards(v, key, []cardOp{{issuer: o.issuer, text: t}}, 1)
					}
				}
			})
		})
	}
	// Two cards at a time: neither sees what the other was given.
	for _, key := range sortedNames(lists) {
		key, list := key, lists[key]
		if len(list) > 8 {
			continue
		}
		c.Case("two/"+key, func(v *V) {
			withList(list, func() {
				var few []cardOp
				for _, o := range fewCards(cardOps(list), 1) {
					few = append(few, o)
					o.card = 1
					few = append(few, o)
				}
				walkCards(c, v, few, 3, func(seq []cardOp) { runCards(v, key, seq, 2) })
			})
		})
	}
	// The list is exchanged, or changed in place, between two additions: the
	// list counts as it is when the issuer is added.
	names := sortedNames(lists)
	for _, from := range names {
		from := from
		if len(lists[from]) > 40 {
			continue
		}
		c.Case("exchange/"+from, func(v *V) {
			for _, to := range names {
				if len(lists[to]) > 40 || from == to {
					continue
				}
				for _, o := range fewCards(cardOps(lists[from]), 2) {
					for _, p := range append(fewCards(cardOps(lists[to]), 2), o) {
						for _, inPlace := range []bool{false, true} {
							if c.Expired() || v.Failed() {
								return
							}
							first := append([]*identity.CreditCardIssuer{}, lists[from]...)
							withList(first, func() {
								st := newCards(v, 1)
								what := fmt.Sprintf("%s then %s, in place %v: %v %v", from, to, inPlace, o, p)
								if !st.step(o, what+": first") {
									return
								}
								if inPlace && len(first) == len(lists[to]) {
									copy(first, lists[to])
								} else {
									identity.CreditCardIssuers = lists[to]
								}
								if !st.step(p, what+": second") {
									return
								}
								identity.CreditCardIssuers = nil
								st.step(p, what+": without a list")
								v.Count("traces_validated_against_impl", 1)
							})
						}
					}
				}
			}
		})
	}
}

type cardOp struct {
	issuer bool
	text   string
	card   int
}

// cardOps lists an addition of every text worth trying with a list.
func cardOps(list []*identity.CreditCardIssuer) (every []cardOp) {
	seen := map[string]bool{}
	add := func(s string) {
		if !seen[s] {
			seen[s] = true
			every = append(every, cardOp{issuer: true, text: s})
		}
	}
	names := func(s string) {
		add(s)
		add(lowerText(s))
		add(strings.ToUpper(s))
		if s != "" {
			add(strings.ToUpper(s[:1]) + s[1:])
			add(lowerText(s[:1]) + s[1:])
			add(s[:len(s)-1])
		}
		add(s + " ")
		add(" " + s)
	}
	for _, i := range list {
		names(i.Name)
		for _, a := range i.Aliases {
			names(a)
		}
	}
	for _, s := range []string{"", "Unlisted", "Visa", "Discover", "\x00"} {
		add(s)
	}
	for _, a := range identity.CreditCardAssociations {
		for _, s := range append([]string{a.Name, lowerText(a.Name)}, a.Aliases...) {
			every = append(every, cardOp{text: s})
		}
	}
	for _, s := range []string{"", "VISA", "Visa ", "Visa Electron", "AmericanExpress", "Diners", "X", "Bank", "Citigroup"} {
		every = append(every, cardOp{text: s})
	}
	return every
}

// The reference.
func issuerOf(s string) *identity.CreditCardIssuer {
	for _, i := range identity.CreditCardIssuers {
		for _, n := range append([]string{i.Name}, i.Aliases...) {
			if s == n || s == lowerText(n) {
				return i
			}
		}
	}
	return nil
}

func assocOf(s string) *identity.CreditCardAssociation {
	for _, a := range identity.CreditCardAssociations {
		if a.Name == s {
			return a
		}
	}
	return nil
}

// fewCards keeps n texts per distinct effect, and n refused ones of each kind.
func fewCards(every []cardOp, n int) (few []cardOp) {
	effects := map[interface{}]int{}
	for _, o := range every {
		var e interface{}
		if o.issuer {
			e = issuerOf(o.text)
		} else {
			e = assocOf(o.text)
		}
		if effects[e]++; effects[e] <= n {
			few = append(few, o)
		}
	}
	return few
}

func walkCards(c *Ctx, v *V, few []cardOp, depth int, run func([]cardOp)) {
	// A bound on the number of sequences.
	for n := 1; n <= depth; n++ {
		if f := pow(len(few), n); f > 250000 && !c.Thorough || f > 8000000 {
			depth = n - 1
			break
		}
	}
	var walk func(seq []cardOp)
	walk = func(seq []cardOp) {
		if c.Expired() || v.Failed() {
			return
		}
		if len(seq) == depth {
			run(seq)
			return
		}
		for _, o := range few {
			walk(append(seq[:len(seq):len(seq)], o))
		}
	}
	walk(nil)
}

func pow(b, n int) int {
	p := 1
	for ; n > 0; n-- {
		p *= b
	}
	return p
}

type cards struct {
	v    *V
	real []*identity.CreditCard
	want []identity.CreditCard
}

func newCards(v *V, n int) *cards {
	st := &cards{v: v}
	for i := 0; i < n; i++ {
		cc := identity.NewCreditCard()
		if !reflect.DeepEqual(*cc, identity.CreditCard{}) {
			v.Fail("new card", "a new card is %+v", *cc)
		}
		cc.Number, cc.Code, cc.ExpiresAt, cc.IssuedAt = fmt.Sprint("4111", i), "123", time.Unix(5, 0), time.Unix(3, 0)
		st.real = append(st.real, cc)
		st.want = append(st.want, *cc)
	}
	return st
}

// step performs an addition and compares every card with the reference.
func (st *cards) step(o cardOp, what string) bool {
	v := st.v
	v.Count("transitions", 1)
	var err error
	var ok bool
	cc := st.real[o.card]
	want := &st.want[o.card]
	p := protect(func() {
		if o.issuer {
			i := issuerOf(o.text)
			if ok = i != nil; ok {
				want.Issuer = i
			}
			err = cc.AddIssuer(o.text)
		} else {
			a := assocOf(o.text)
			if ok = a != nil; ok {
				want.Association = a
			}
			err = cc.AddAssociation(o.text)
		}
	})
	if p != "" || (err == nil) != ok {
		v.Fail(what, "%s: %s %v, wanted %v", what, p, err, ok)
		return false
	}
	doc := errors.ErrCreditCardUnsupportedAssociation
	if o.issuer {
		doc = errors.ErrCreditCardUnsupportedIssuer
	}
	if err != nil && !stderrors.Is(err, doc) {
		v.Fail(what, "%s: the error is %v", what, err)
		return false
	}
	for i := range st.real {
		if cc, want := st.real[i], st.want[i]; cc.Issuer != want.Issuer || cc.Association != want.Association || !reflect.DeepEqual(*cc, want) {
			v.Fail(what, "%s: card %d is %+v, wanted %+v", what, i, *cc, want)
			return false
		}
	}
	return true
}

func runCards(v *V, key string, seq []cardOp, n int) {
	st := newCards(v, n)
	for i, o := range seq {
		if !st.step(o, fmt.Sprintf("%s: %v", key, seq[:i+1])) {
			return
		}
		v.State("states", fmt.Sprintf("%s|%p|%p", key, st.real[o.card].Issuer, st.real[o.card].Association))
	}
	v.Count("traces_validated_against_impl", 1)
}

func dumpIssuers(l []*identity.CreditCardIssuer) (out []identity.CreditCardIssuer) {
	for _, i := range l {
		out = append(out, *i)
	}
	return
}

func dumpAssociations() (out []identity.CreditCardAssociation) {
	for _, i := range identity.CreditCardAssociations {
		out = append(out, *i)
	}
	return
}
