package Unif_test

// Monitor for unification: the code tree, UnifyTerms and MergeSubstitutions against a textbook unification algorithm.

import (
	"encoding/json"
	"fmt"
	"math/rand"
	"os"
	"sort"
	"strconv"
	"strings"
	"sync"
	"testing"

	"github.com/GoelandProver/Goeland/AST"
	"github.com/GoelandProver/Goeland/Glob"
	"github.com/GoelandProver/Goeland/Lib"
	"github.com/GoelandProver/Goeland/Typing"
	"github.com/GoelandProver/Goeland/Unif"
)

func env(k string, d int) int {
	if v, err := strconv.Atoi(os.Getenv(k)); err == nil {
		return v
	}
	return d
}

var out *os.File
var outMu sync.Mutex

func emit(m map[string]any) {
	b, _ := json.Marshal(m)
	outMu.Lock()
	defer outMu.Unlock()
	out.Write(append(b, '\n'))
}

func TestMain(m *testing.M) {
	out, _ = os.Create(os.Getenv("VERIF_OUT"))
	Glob.InitLogs()
	AST.InitDebugger()
	Typing.InitDebugger()
	Unif.InitDebugger()
	AST.Init()
	Typing.Init()
	os.Exit(m.Run())
}

// ---------------------------------------------------------------- reference

type bind map[int]AST.Term

func walk(b bind, t AST.Term) AST.Term {
	for {
		m, ok := t.(AST.Meta)
		if !ok {
			return t
		}
		u, ok := b[m.GetIndex()]
		if !ok {
			return t
		}
		t = u
	}
}

func occurs(b bind, i int, t AST.Term) bool {
	switch u := walk(b, t).(type) {
	case AST.Meta:
		return u.GetIndex() == i
	case AST.Fun:
		for _, a := range u.GetArgs().GetSlice() {
			if occurs(b, i, a) {
				return true
			}
		}
	}
	return false
}

func unify(b bind, s, t AST.Term) bool {
	s, t = walk(b, s), walk(b, t)
	ms, oks := s.(AST.Meta)
	mt, okt := t.(AST.Meta)
	switch {
	case oks && okt && ms.GetIndex() == mt.GetIndex():
		return true
	case oks:
		if occurs(b, ms.GetIndex(), t) {
			return false
		}
		b[ms.GetIndex()] = t
		return true
	case okt:
		return unify(b, t, s)
	}
	f, g := s.(AST.Fun), t.(AST.Fun)
	if f.GetName() != g.GetName() || f.GetArgs().Len() != g.GetArgs().Len() {
		return false
	}
	for i := 0; i < f.GetArgs().Len(); i++ {
		if !unify(b, f.GetArgs().At(i), g.GetArgs().At(i)) {
			return false
		}
	}
	return true
}

func str(b bind, t AST.Term) string {
	switch u := walk(b, t).(type) {
	case AST.Meta:
		return "_" + strconv.Itoa(u.GetIndex())
	case AST.Fun:
		if u.GetArgs().Len() == 0 {
			return u.GetName()
		}
		as := []string{}
		for _, a := range u.GetArgs().GetSlice() {
			as = append(as, str(b, a))
		}
		return u.GetName() + "(" + strings.Join(as, ",") + ")"
	}
	return "?"
}

// the substitution as equations, solved: nil when it has no solution
func solve(ss Unif.Substitutions) bind {
	b := bind{}
	for _, s := range ss {
		k, v := s.Get()
		if !unify(b, k, v) {
			return nil
		}
	}
	return b
}

// do a and b have the same solutions (as sets of equations)?
func equivalent(a, b bind, metas []AST.Meta) bool {
	imp := func(x, y bind) bool {
		for _, m := range metas {
			if v, ok := y[m.GetIndex()]; ok && str(x, m) != str(x, v) {
				return false
			}
		}
		return true
	}
	return imp(a, b) && imp(b, a)
}

func show(ss Unif.Substitutions) string {
	as := []string{}
	for _, s := range ss {
		as = append(as, str(bind{}, s.Key())+"="+str(bind{}, s.Value()))
	}
	return "{" + strings.Join(as, " ") + "}"
}

// no bound metavariable occurs in a value
func solved(ss Unif.Substitutions) bool {
	keys := map[int]bool{}
	for _, s := range ss {
		if keys[s.Key().GetIndex()] {
			return false
		}
		keys[s.Key().GetIndex()] = true
	}
	for _, s := range ss {
		for _, m := range s.Value().GetMetas().Elements().GetSlice() {
			if keys[m.GetIndex()] {
				return false
			}
		}
	}
	return true
}

// ---------------------------------------------------------------- generation

type gen struct {
	r     *rand.Rand
	metas []AST.Meta
	funs  map[string]int
	names []string
	pm    float64
}

func mkGen(r *rand.Rand) *gen {
	g := &gen{r: r, funs: map[string]int{"a": 0, "b": 0, "f": 1, "g": 2, "h": 3}, pm: []float64{0.2, 0.4, 0.6}[r.Intn(3)]}
	for n := range g.funs {
		g.names = append(g.names, n)
	}
	sort.Strings(g.names)
	n := 2 + r.Intn(5)
	for i := 0; i < n; i++ {
		g.metas = append(g.metas, AST.MakerMeta("X", -1, AST.TIndividual()))
	}
	return g
}

// a term whose first arguments are nested: the machine pushes one position per level
func (g *gen) spine(d int) AST.Term {
	if d <= 0 {
		return g.term(1)
	}
	args := Lib.NewList[AST.Term]()
	n := []string{"g", "h"}[g.r.Intn(2)]
	args.Append(g.spine(d - 1))
	for i := 1; i < g.funs[n]; i++ {
		args.Append(g.term(g.r.Intn(2)))
	}
	return AST.MakerFun(AST.MakerId(n), Lib.NewList[AST.Ty](), args)
}

func (g *gen) term(d int) AST.Term {
	if d > 1 && g.r.Intn(24) == 0 {
		return g.spine(2 + g.r.Intn(4))
	}
	if g.r.Float64() < g.pm {
		return g.metas[g.r.Intn(len(g.metas))]
	}
	n := g.names[g.r.Intn(len(g.names))]
	for d <= 0 && g.funs[n] > 0 {
		n = g.names[g.r.Intn(len(g.names))]
	}
	args := Lib.NewList[AST.Term]()
	for i := 0; i < g.funs[n]; i++ {
		args.Append(g.term(d - 1))
	}
	return AST.MakerFun(AST.MakerId(n), Lib.NewList[AST.Ty](), args)
}

var preds = []struct {
	n string
	k int
}{{"p", 1}, {"p2", 2}, {"q", 3}, {"s", 0}}

func (g *gen) atom(d int) AST.Pred {
	p := preds[g.r.Intn(len(preds))]
	if p.k == 0 && g.r.Intn(3) > 0 {
		p = preds[1]
	}
	args := Lib.NewList[AST.Term]()
	for i := 0; i < p.k; i++ {
		args.Append(g.term(d))
	}
	return AST.MakerPred(AST.MakerId(p.n), Lib.NewList[AST.Ty](), args)
}

// a variant of an atom: near misses and shared prefixes, the interesting paths of a code tree
func (g *gen) vary(p AST.Pred) AST.Pred {
	args := Lib.NewList[AST.Term]()
	for _, a := range p.GetArgs().GetSlice() {
		args.Append(g.varyT(a))
	}
	return AST.MakerPred(p.GetID(), Lib.NewList[AST.Ty](), args)
}

func (g *gen) varyT(t AST.Term) AST.Term {
	if g.r.Intn(5) == 0 {
		return g.term(1)
	}
	if f, ok := t.(AST.Fun); ok {
		args := Lib.NewList[AST.Term]()
		for _, a := range f.GetArgs().GetSlice() {
			args.Append(g.varyT(a))
		}
		return AST.MakerFun(f.GetID(), Lib.NewList[AST.Ty](), args)
	}
	if g.r.Intn(4) == 0 {
		return g.metas[g.r.Intn(len(g.metas))]
	}
	return t
}

func asTerm(p AST.Pred) AST.Term { return AST.MakerFun(p.GetID(), Lib.NewList[AST.Ty](), p.GetArgs()) }

// ---------------------------------------------------------------- monitors

func bad(kind string, what string, replay string) {
	emit(map[string]any{"bad": kind, "what": what, "replay": replay})
}

func TestCodeTree(t *testing.T) {
	seed, n := env("VERIF_SEED", 1), env("VERIF_N", 2000)
	hits, misses, shared := 0, 0, 0
	for c := 0; c < n; c++ {
		r := rand.New(rand.NewSource(int64(seed)*1000003 + int64(c)))
		g := mkGen(r)
		d := 1 + r.Intn(3)
		atoms := []AST.Pred{}
		k := 1 + r.Intn(8)
		for i := 0; i < k; i++ {
			if i > 0 && r.Intn(3) > 0 {
				atoms = append(atoms, g.vary(atoms[r.Intn(len(atoms))]))
			} else {
				atoms = append(atoms, g.atom(d))
			}
		}
		ls := Lib.NewList[AST.Form]()
		for _, a := range atoms {
			ls.Append(a)
		}
		var tree Unif.DataStructure
		cut := len(atoms)
		if r.Intn(3) == 0 {
			cut = 1 + r.Intn(len(atoms))
		}
		first, second := Lib.NewList[AST.Form](), Lib.NewList[AST.Form]()
		for i, a := range atoms {
			if i < cut {
				first.Append(a)
			} else {
				second.Append(a)
			}
		}
		tree = Unif.NewNode().MakeDataStruct(first, true)
		if cut < len(atoms) {
			tree = tree.InsertFormulaListToDataStructure(second)
		}
		if r.Intn(2) == 0 {
			tree = tree.Copy()
		}
		queries := []AST.Pred{}
		for i := 0; i < 4; i++ {
			if r.Intn(4) > 0 {
				queries = append(queries, g.vary(atoms[r.Intn(len(atoms))]))
			} else {
				queries = append(queries, g.atom(d))
			}
		}
		desc := func(q AST.Pred) string {
			as := []string{}
			for _, a := range atoms {
				as = append(as, str(bind{}, asTerm(a)))
			}
			return fmt.Sprintf("tree {%s} (first %d at once), query %s", strings.Join(as, "; "), cut, str(bind{}, asTerm(q)))
		}
		one := func(q AST.Pred, pass int) {
			want := map[string]bool{}
			for _, a := range atoms {
				if unify(bind{}, asTerm(a), asTerm(q)) {
					want[str(bind{}, asTerm(a))] = true
				}
			}
			ok, res := tree.Unify(q)
			got := map[string]bool{}
			for _, m := range res {
				f, isp := m.GetForm().(AST.Pred)
				if !isp {
					continue
				}
				ss := m.GetTrmSubsts()
				key := str(bind{}, asTerm(f))
				if !ok {
					continue
				}
				got[key] = true
				b := solve(ss)
				if b == nil {
					bad("unsolvable", "the substitution of an answer has no solution", desc(q)+" answer "+key+" "+show(ss))
					continue
				}
				if str(b, asTerm(f)) != str(b, asTerm(q)) {
					bad("not-unifier", "the substitution of an answer does not unify it with the query", desc(q)+" answer "+key+" "+show(ss))
					continue
				}
				ref := bind{}
				if !unify(ref, asTerm(f), asTerm(q)) {
					bad("spurious", "an answer does not unify with the query", desc(q)+" answer "+key+" "+show(ss))
					continue
				}
				if !equivalent(b, ref, g.metas) {
					bad("not-mgu", "the substitution of an answer is not most general", desc(q)+" answer "+key+" "+show(ss))
				}
				if !solved(ss) {
					bad("not-solved", "the substitution of an answer binds a metavariable that occurs in its values", desc(q)+" answer "+key+" "+show(ss))
				}
			}
			if ok && len(want) == 0 && len(got) > 0 || ok != (len(got) > 0) && len(want) > 0 {
				bad("flag", fmt.Sprintf("success is %v with %d answers, %d atoms unify", ok, len(got), len(want)), desc(q))
			}
			for w := range want {
				if !got[w] {
					bad("missed", "an atom of the tree unifies with the query and is not found", desc(q)+" missing "+w)
				}
			}
			if len(want) > 0 {
				hits += len(want)
				if pass == 0 {
					emit(map[string]any{"seen": desc(q)})
				}
				if len(want) > 1 {
					shared++
				}
			} else {
				misses++
			}
		}
		for pass := 0; pass < 2; pass++ { // the second pass: answering leaves the tree as it was
			for _, q := range queries {
				one(q, pass)
			}
		}
		if c%8 == 0 { // concurrent queries on one tree, as sibling branches do
			var wg sync.WaitGroup
			for _, q := range queries {
				wg.Add(1)
				q := q
				go func() {
					defer wg.Done()
					ok, res := tree.Unify(q)
					n := 0
					for _, m := range res {
						if f, isp := m.GetForm().(AST.Pred); isp && ok {
							b := solve(m.GetTrmSubsts())
							if b == nil || str(b, asTerm(f)) != str(b, asTerm(q)) {
								bad("concurrent", "a concurrent query gets a wrong unifier", desc(q)+" answer "+str(bind{}, asTerm(f))+" "+show(m.GetTrmSubsts()))
							}
							n++
						}
					}
				}()
			}
			wg.Wait()
		}
		if c%200 == 0 {
			emit(map[string]any{"sample": desc(queries[0])})
		}
	}
	emit(map[string]any{"stat": "tree", "cases": n, "unifying": hits, "not": misses, "several": shared})
}

func TestUnifyTerms(t *testing.T) {
	seed, n := env("VERIF_SEED", 1), env("VERIF_N", 2000)*4
	yes, no := 0, 0
	for c := 0; c < n; c++ {
		r := rand.New(rand.NewSource(int64(seed)*7000003 + int64(c)))
		g := mkGen(r)
		x := g.term(3)
		y := g.varyT(x)
		if r.Intn(4) == 0 {
			y = g.term(3)
		}
		b := bind{}
		want := unify(b, x, y)
		ok, ss := Unif.UnifyTerms(x, y)
		d := str(bind{}, x) + " =? " + str(bind{}, y)
		if ok != want {
			bad("terms", fmt.Sprintf("UnifyTerms answers %v", ok), d)
			continue
		}
		if !ok {
			no++
			continue
		}
		yes++
		got := Unif.ToSubstitutions(ss)
		gb := solve(got)
		if gb == nil || str(gb, x) != str(gb, y) || !equivalent(gb, b, g.metas) {
			bad("terms", "UnifyTerms does not give a most general unifier", d+" "+show(got))
		} else if !solved(got) {
			bad("terms-solved", "the unifier binds a metavariable that occurs in its values", d+" "+show(got))
		}
	}
	emit(map[string]any{"stat": "terms", "cases": n, "unifying": yes, "not": no})
}

func TestMerge(t *testing.T) {
	seed, n := env("VERIF_SEED", 1), env("VERIF_N", 2000)*4
	yes, no := 0, 0
	mgu := func(g *gen) (Unif.Substitutions, bool) {
		x := g.term(2)
		ok, ss := Unif.UnifyTerms(x, g.varyT(x))
		if ok && g.r.Intn(2) == 0 { // a larger one, in solved form
			b := solve(Unif.ToSubstitutions(ss))
			y := g.term(2)
			if unify(b, y, g.varyT(y)) {
				return idem(b, g.metas), true
			}
		}
		return Unif.ToSubstitutions(ss), ok
	}
	for c := 0; c < n; c++ {
		r := rand.New(rand.NewSource(int64(seed)*9000011 + int64(c)))
		g := mkGen(r)
		s1, ok1 := mgu(g)
		s2, ok2 := mgu(g)
		if !ok1 || !ok2 || len(s1) == 0 || len(s2) == 0 {
			continue
		}
		d := show(s1) + " + " + show(s2)
		want := solve(append(s1.Copy(), s2.Copy()...))
		c1, c2 := show(s1), show(s2)
		res, _ := Unif.MergeSubstitutions(s1, s2)
		if show(s1) != c1 || show(s2) != c2 {
			bad("merge-mutates", "MergeSubstitutions changes its arguments", d)
		}
		if res.Equals(Unif.Failure()) {
			if want != nil {
				bad("merge", "MergeSubstitutions fails on compatible substitutions", d)
			} else {
				no++
			}
			continue
		}
		if want == nil {
			bad("merge", "MergeSubstitutions succeeds on incompatible substitutions", d+" gives "+show(res))
			continue
		}
		got := solve(res)
		if got == nil || !equivalent(got, want, g.metas) {
			bad("merge", "MergeSubstitutions gives something else than the most general common instance", d+" gives "+show(res))
		} else if !solved(res) {
			bad("merge-solved", "the merged substitution binds a metavariable that occurs in its values", d+" gives "+show(res))
		}
		yes++
	}
	emit(map[string]any{"stat": "merge", "cases": n, "compatible": yes, "not": no})
}

func full(b bind, t AST.Term) AST.Term {
	t = walk(b, t)
	if f, ok := t.(AST.Fun); ok {
		args := Lib.NewList[AST.Term]()
		for _, a := range f.GetArgs().GetSlice() {
			args.Append(full(b, a))
		}
		return AST.MakerFun(f.GetID(), Lib.NewList[AST.Ty](), args)
	}
	return t
}

func idem(b bind, metas []AST.Meta) Unif.Substitutions {
	ss := Unif.MakeEmptySubstitution()
	for _, m := range metas {
		if _, ok := b[m.GetIndex()]; ok {
			ss = append(ss, Unif.MakeSubstitution(m, full(b, m)))
		}
	}
	return ss
}

// a substitution in triangular form is brought to solved form
func TestEliminate(t *testing.T) {
	seed, n := env("VERIF_SEED", 1), env("VERIF_N", 2000)*2
	done := 0
	for c := 0; c < n; c++ {
		r := rand.New(rand.NewSource(int64(seed)*11000027 + int64(c)))
		g := mkGen(r)
		b := bind{}
		for i := 0; i < 2; i++ {
			x := g.term(2)
			b2 := bind{}
			for k, v := range b {
				b2[k] = v
			}
			if unify(b2, x, g.varyT(x)) {
				b = b2
			}
		}
		ss := Unif.MakeEmptySubstitution()
		for _, m := range g.metas {
			if v, ok := b[m.GetIndex()]; ok {
				ss = append(ss, Unif.MakeSubstitution(m, v))
			}
		}
		r.Shuffle(len(ss), func(i, j int) { ss[i], ss[j] = ss[j], ss[i] })
		d := show(ss)
		res := ss.Copy()
		Unif.EliminateMeta(&res)
		Unif.Eliminate(&res)
		got := solve(res)
		if len(ss) > 0 && res.Equals(Unif.Failure()) || got == nil || !equivalent(got, b, g.metas) {
			bad("eliminate", "Eliminate changes the solutions of a substitution", d+" gives "+show(res))
		} else if !solved(res) {
			bad("eliminate", "Eliminate does not give a solved form", d+" gives "+show(res))
		}
		if len(ss) > 1 {
			done++
		}
	}
	emit(map[string]any{"stat": "eliminate", "cases": n, "several bindings": done})
}

// the elementary operations on substitutions, against a map
func TestSubstOps(t *testing.T) {
	seed, n := env("VERIF_SEED", 1), 4*env("VERIF_N", 2000)
	same := 0
	for c := 0; c < n; c++ {
		r := rand.New(rand.NewSource(int64(seed)*1000011 + int64(c)))
		g := mkGen(r)
		mk := func() (Unif.Substitutions, map[int]AST.Term) {
			ss, mp := Unif.MakeEmptySubstitution(), map[int]AST.Term{}
			for i := r.Intn(5); i > 0; i-- {
				k := g.metas[r.Intn(len(g.metas))]
				if _, in := mp[k.GetIndex()]; in {
					continue
				}
				v := g.term(r.Intn(2))
				ss.Set(k, v)
				mp[k.GetIndex()] = v
			}
			return ss, mp
		}
		perm := func(ss Unif.Substitutions) Unif.Substitutions {
			o := Unif.MakeEmptySubstitution()
			for _, i := range r.Perm(len(ss)) {
				o.Set(ss[i].Key(), ss[i].Value())
			}
			return o
		}
		a, ma := mk()
		b, mb := mk()
		if r.Intn(2) == 0 {
			b, mb = perm(a), ma
			if len(b) > 0 && r.Intn(2) == 0 {
				k := b[len(b)-1].Key()
				v := g.term(1)
				b.Remove(len(b) - 1)
				b.Set(k, v)
				mb = map[int]AST.Term{}
				for q, x := range ma {
					mb[q] = x
				}
				mb[k.GetIndex()] = v
			}
		}
		eq := len(ma) == len(mb)
		for k, v := range ma {
			w, in := mb[k]
			if !in || str(bind{}, v) != str(bind{}, w) {
				eq = false
			}
		}
		if eq {
			same++
		}
		rep := show(a) + " and " + show(b)
		if a.Equals(b) != eq || b.Equals(a) != eq {
			bad("subst-equals", fmt.Sprintf("equality of two substitutions is %v and %v", a.Equals(b), b.Equals(a)), rep)
		}
		l := []Unif.Substitutions{a.Copy()}
		if Unif.ContainsSubst(l, b) != eq {
			bad("subst-contains", "a list of one substitution contains another", rep)
		}
		if (len(Unif.AddSubstToSubstitutionsList(l, b)) == 1) != eq || (len(Unif.AppendIfNotContainsSubst(l, b)) == 1) != eq {
			bad("subst-add", "adding a substitution to a list duplicates or loses it", rep)
		}
		for _, m := range g.metas {
			v, i := a.Get(m)
			w, in := ma[m.GetIndex()]
			if in != (i >= 0) || in != Unif.HasSubst(a, m) || in && str(bind{}, v) != str(bind{}, w) {
				bad("subst-get", "a binding is not found or another one is", show(a)+" at "+str(bind{}, m))
			}
		}
		before := show(a)
		cp := a.Copy()
		if len(cp) > 0 {
			cp.Remove(r.Intn(len(cp)))
		}
		cp.Set(AST.MakerMeta("N", -1, AST.TIndividual()), g.term(1))
		if show(a) != before {
			bad("subst-copy", "a change of a copy changes the substitution", before+" becomes "+show(a))
		}
	}
	emit(map[string]any{"stat": "operations", "cases": n, "equal": same})
}
