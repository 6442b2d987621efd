package main

// If-conversion: a symbolic branch whose region up to the immediate
// post-dominator has no side effects is evaluated on both sides and joined
// with ite terms instead of forking the path.

func (m *Machine) mergeAnalysis(fn *Fn) {
	n := len(fn.blocks)
	if n < 2 || n > 400 {
		return
	}
	has := false
	for _, b := range fn.blocks {
		if k := len(b.ins); k > 0 && b.ins[k-1].op == iIf {
			has = true
		}
	}
	if !has {
		return
	}
	// reverse graph with virtual exit n; panic blocks dropped
	isPanic := make([]bool, n)
	exits := []int{}
	for i, b := range fn.blocks {
		if len(b.ins) == 0 {
			continue
		}
		switch b.ins[len(b.ins)-1].op {
		case iPanic:
			isPanic[i] = true
		case iReturn:
			exits = append(exits, i)
		}
	}
	succ := func(i int) []int {
		if i == n {
			return nil
		}
		b := fn.blocks[i]
		if len(b.ins) > 0 && b.ins[len(b.ins)-1].op == iReturn {
			return []int{n}
		}
		var r []int
		for _, s := range b.succs {
			if !isPanic[s] {
				r = append(r, s)
			}
		}
		return r
	}
	preds := make([][]int, n+1)
	for i := 0; i < n; i++ {
		if isPanic[i] {
			continue
		}
		for _, s := range succ(i) {
			preds[s] = append(preds[s], i)
		}
	}
	// postorder on the reverse graph from exit
	order := []int{}
	num := make([]int, n+1)
	for i := range num {
		num[i] = -1
	}
	seen := make([]bool, n+1)
	var dfs func(int)
	dfs = func(x int) {
		seen[x] = true
		for _, p := range preds[x] {
			if !seen[p] {
				dfs(p)
			}
		}
		num[x] = len(order)
		order = append(order, x)
	}
	dfs(n)
	idom := make([]int, n+1)
	for i := range idom {
		idom[i] = -1
	}
	idom[n] = n
	inter := func(a, b int) int {
		for a != b {
			for num[a] < num[b] {
				a = idom[a]
			}
			for num[b] < num[a] {
				b = idom[b]
			}
		}
		return a
	}
	for changed := true; changed; {
		changed = false
		for k := len(order) - 2; k >= 0; k-- {
			x := order[k]
			nd := -1
			for _, s := range succ(x) {
				if num[s] < 0 || idom[s] < 0 {
					continue
				}
				if nd < 0 {
					nd = s
				} else {
					nd = inter(nd, s)
				}
			}
			if nd >= 0 && idom[x] != nd {
				idom[x] = nd
				changed = true
			}
		}
	}
	for i, b := range fn.blocks {
		if isPanic[i] || len(b.ins) == 0 || b.ins[len(b.ins)-1].op != iIf || idom[i] < 0 {
			continue
		}
		j := idom[i]
		mi := &mergeInfo{join: j}
		if j == n {
			mi.join = -1
		}
		// region: acyclic, pure
		state := map[int]int{}
		ok := true
		var walk func(x int)
		walk = func(x int) {
			if !ok || x == j || x == n || isPanic[x] {
				return
			}
			if state[x] == 1 || x == i {
				ok = false
				return
			}
			if state[x] == 2 {
				return
			}
			state[x] = 1
			if len(state) > 40 || !m.pureBlock(fn, fn.blocks[x]) {
				ok = false
				return
			}
			for _, s := range succ(x) {
				walk(s)
			}
			state[x] = 2
		}
		for _, s := range succ(i) {
			walk(s)
		}
		if ok && mi.join >= 0 {
			jb := fn.blocks[mi.join]
			if jb.nphi == 0 && len(state) > 0 {
				// nothing flows out: region is dead code apart from possible panics
			}
			for k := 0; k < jb.nphi; k++ {
				t := jb.ins[k].ti
				if t.kind == kMap || t.kind == kChan {
					_ = t
				}
			}
		}
		if ok && mi.join < 0 && fn.hasDefer {
			ok = false
		}
		if ok {
			b.merge = mi
		}
	}
}

func (m *Machine) pureBlock(fn *Fn, b *cblk) bool {
	for k := range b.ins {
		in := &b.ins[k]
		switch in.op {
		case iPhi, iBinOp, iMove, iConvert, iExtract, iField, iFieldAddr, iIndex, iIndexAddr, iLookup,
			iLoad, iNot, iNeg, iCom, iJump, iIf, iReturn, iSlice, iTypeAssert, iMakeIface:
		case iCallBuiltin:
			ci := in.x.(*callInfo)
			switch ci.builtin {
			case "len", "cap", "min", "max":
			default:
				return false
			}
		case iCall:
			ci := in.x.(*callInfo)
			if ci.static == nil || !m.pureFn(ci.static) {
				return false
			}
		default:
			return false
		}
	}
	return true
}

func (m *Machine) pureFn(fn *Fn) bool {
	if fn.redirect != nil {
		return m.pureFn(fn.redirect)
	}
	switch fn.pure {
	case 1:
		return true
	case 2, 3:
		return false
	}
	if fn.nat != nil {
		if pureNatives[fn.name] {
			fn.pure = 1
			return true
		}
		fn.pure = 2
		return false
	}
	fn.pure = 3
	m.compile(fn)
	r := fn.bad == "" && !fn.hasDefer && len(fn.blocks) < 60
	if r {
		for _, b := range fn.blocks {
			if len(b.ins) > 0 && b.ins[len(b.ins)-1].op == iPanic {
				continue
			}
			if !m.pureBlock(fn, b) {
				r = false
				break
			}
		}
	}
	if r {
		fn.pure = 1
	} else {
		fn.pure = 2
	}
	return r
}

type specAbort struct{}

// panics tells whether b ends in a panic: such blocks are not required to be
// free of side effects, and so not run in speculation.
func (b *cblk) panics() bool {
	n := len(b.ins)
	return n > 0 && b.ins[n-1].op == iPanic
}

// tryMergeRec attempts a merge at a new branch and records the outcome in
// the trace, so that replaying the prefix takes the same route.
func (m *Machine) tryMergeRec(try bool, fr *Frame, b *cblk, c *Term) (ok bool, ret Value) {
	if try {
		ok, ret = m.tryMerge(fr, b, c)
	}
	d := decision{kind: 'm', t: ok}
	m.pos++
	m.trace = append(m.trace, d)
	m.prefix = append(m.prefix, d)
	return ok, ret
}

type leaf struct {
	cond *Term
	vals []Value
}

// tryMerge evaluates both sides of the If ending blk. On success the join
// block's phis are set (join>=0) or the merged return value is produced.
func (m *Machine) tryMerge(fr *Frame, b *cblk, cond *Term) (ok bool, ret Value) {
	mi := b.merge
	saved := m.specDepth
	savedPanics := m.depth
	savedG := m.curFrame
	m.specDepth++
	defer func() {
		m.specDepth = saved
		if r := recover(); r != nil {
			switch r.(type) {
			case specAbort, *targetPanic:
				mi.fails++
				ok = false
				m.depth = savedPanics
				m.curFrame = savedG
				if saved > 0 {
					panic(specAbort{})
				}
				return
			}
			panic(r)
		}
	}()
	var leaves []leaf
	m.spec(fr, fr.fn.blocks[b.succs[0]], b.idx, cond, mi.join, &leaves)
	m.spec(fr, fr.fn.blocks[b.succs[1]], b.idx, m.tb.Not(cond), mi.join, &leaves)
	if len(leaves) == 0 {
		panic(specAbort{})
	}
	var tis []*TI
	if mi.join >= 0 {
		jb := fr.fn.blocks[mi.join]
		for k := 0; k < jb.nphi; k++ {
			tis = append(tis, jb.ins[k].ti)
		}
	} else {
		tis = fr.fn.resTI
	}
	out := make([]Value, len(tis))
	for k, ti := range tis {
		v := leaves[len(leaves)-1].vals[k]
		for i := len(leaves) - 2; i >= 0; i-- {
			v = m.iteVal(ti, leaves[i].cond, leaves[i].vals[k], v)
		}
		out[k] = v
	}
	if mi.join >= 0 {
		jb := fr.fn.blocks[mi.join]
		for k := 0; k < jb.nphi; k++ {
			fr.regs[jb.ins[k].dst] = out[k]
		}
	} else {
		ret = m.packResults(fr.fn, out)
	}
	if mi.fails > 0 {
		mi.fails--
	}
	m.merges++
	return true, ret
}

func (m *Machine) iteVal(ti *TI, c *Term, a, b Value) Value {
	switch ti.kind {
	case kBool, kInt:
		if a.p == nil && b.p == nil && a.n == b.n {
			return a
		}
		return tv(m.tb.Ite(c, m.term(a, ti.w), m.term(b, ti.w)))
	case kString:
		if strLen(a) != strLen(b) {
			panic(specAbort{})
		}
		x, y := strBytes(a), strBytes(b)
		r := make([]Value, len(x))
		for i := range r {
			r[i] = m.iteVal(m.tByte, c, x[i], y[i])
		}
		return mkSymStr(r)
	case kFloat:
		if a.n == b.n {
			return a
		}
	case kPtr, kMap, kChan, kFunc, kUnsafe:
		if a.p == b.p && a.n == b.n {
			return a
		}
	case kIface:
		if a.p == b.p {
			return a
		}
		if a.p != nil && b.p != nil {
			x, y := a.p.(*Iface), b.p.(*Iface)
			if x.ti == y.ti {
				return Value{p: &Iface{x.ti, m.iteVal(x.ti, c, x.v, y.v)}}
			}
		}
	case kSlice:
		if a.p == b.p {
			return a
		}
		if a.p != nil && b.p != nil {
			x, y := a.p.(*SliceV), b.p.(*SliceV)
			if *x == *y {
				return a
			}
		}
	case kStruct:
		x, y := a.p.([]Value), b.p.([]Value)
		r := make([]Value, len(x))
		for i, ft := range ti.ft {
			v := m.iteVal(ft, c, sub(x, ti.foff[i], ft), sub(y, ti.foff[i], ft))
			if ft.agg() {
				copy(r[ti.foff[i]:], v.p.([]Value))
			} else {
				r[ti.foff[i]] = v
			}
		}
		return Value{p: r}
	}
	panic(specAbort{})
}

func (m *Machine) spec(fr *Frame, b *cblk, pred int, cond *Term, join int, out *[]leaf) {
	if cond == m.tb.tFals {
		return
	}
	for {
		if b.idx == join {
			lf := leaf{cond: cond}
			ei := predIndex(b, pred)
			for k := 0; k < b.nphi; k++ {
				lf.vals = append(lf.vals, fr.get(b.ins[k].args[ei]))
			}
			*out = append(*out, lf)
			if len(*out) > 64 {
				panic(specAbort{})
			}
			return
		}
		if b.nphi > 0 {
			ei := predIndex(b, pred)
			vals := make([]Value, b.nphi)
			for k := 0; k < b.nphi; k++ {
				vals[k] = fr.get(b.ins[k].args[ei])
			}
			for k := 0; k < b.nphi; k++ {
				fr.regs[b.ins[k].dst] = vals[k]
			}
		}
		if b.panics() {
			panic(specAbort{}) // before what the block does on its way to the panic
		}
		next := -1
		for k := b.nphi; k < len(b.ins); k++ {
			in := &b.ins[k]
			m.steps++
			switch in.op {
			case iIf:
				c := fr.get(in.a)
				if c.p == nil {
					if c.n != 0 {
						next = b.succs[0]
					} else {
						next = b.succs[1]
					}
				} else {
					ct := c.p.(*Term)
					m.spec(fr, fr.fn.blocks[b.succs[0]], b.idx, m.tb.And(cond, ct), join, out)
					m.spec(fr, fr.fn.blocks[b.succs[1]], b.idx, m.tb.And(cond, m.tb.Not(ct)), join, out)
					return
				}
			case iJump:
				next = b.succs[0]
			case iReturn:
				lf := leaf{cond: cond}
				for _, a := range in.args {
					lf.vals = append(lf.vals, fr.get(a))
				}
				*out = append(*out, lf)
				if len(*out) > 64 {
					panic(specAbort{})
				}
				return
			case iPanic:
				panic(specAbort{})
			default:
				m.step(fr, in)
			}
		}
		if next < 0 {
			panic(specAbort{})
		}
		pred = b.idx
		b = fr.fn.blocks[next]
	}
}

func predIndex(b *cblk, pred int) int {
	for i, p := range b.preds {
		if p == pred {
			return i
		}
	}
	panic("predIndex")
}
