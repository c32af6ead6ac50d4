package model

// Site is one value element of a document, with its place.
type Site struct {
	F      *Field
	N      *Node
	Parent *Node
	Path   []string // message set first, the element itself last
}

// Has reports whether tag is on the path.
func (s *Site) Has(tag string) bool {
	for _, p := range s.Path {
		if p == tag {
			return true
		}
	}
	return false
}

// WalkTyped visits every element of d that the schema describes, in document
// order.
func WalkTyped(d *Doc, visit func(Site)) {
	var fields func(fs []*Field, n *Node, path []string)
	agg := func(name string, n *Node, path []string) {
		if a := Aggs[name]; a != nil {
			fields(a.Fields, n, path)
		}
	}
	fields = func(fs []*Field, n *Node, path []string) {
		for _, k := range append([]*Node(nil), n.K...) {
			p := append(path[:len(path):len(path)], k.T)
			for _, f := range fs {
				if f.Kind == "poly" {
					ok := false
					if f.Poly == "msgset" {
						for _, s := range MsgSets {
							ok = ok || s == k.T
						}
						if ok && len(k.K) == 1 {
							agg("MSGSET", k.K[0], append(p, k.K[0].T))
						}
					} else {
						for _, s := range Polys[f.Poly] {
							ok = ok || s == k.T
						}
						if ok {
							visit(Site{f, k, n, p})
							agg(k.T, k, p)
						}
					}
					if ok {
						break
					}
					continue
				}
				if f.Tag != k.T {
					continue
				}
				visit(Site{f, k, n, p})
				switch f.Kind {
				case "wrap":
					fields(f.Kids, k, p)
				case "agg":
					agg(f.Agg, k, p)
				}
				break
			}
		}
	}
	for _, s := range d.Sets {
		for _, m := range s.K {
			path := []string{s.T, m.T}
			visit(Site{&Field{Tag: m.T, Kind: "agg", Agg: m.T}, m, s, path})
			agg(m.T, m, path)
		}
	}
}

// Clone deep-copies.
func (d *Doc) Clone() *Doc {
	c := &Doc{Version: d.Version, HdrKey: d.HdrKey, HdrVal: d.HdrVal, Root: d.Root}
	for _, s := range d.Sets {
		c.Sets = append(c.Sets, s.Clone())
	}
	return c
}

// Remove deletes a child.
func (n *Node) Remove(c *Node) {
	for i, k := range n.K {
		if k == c {
			n.K = append(n.K[:i:i], n.K[i+1:]...)
			return
		}
	}
}

// InsertAfter puts c behind the child at (at the front when at is nil).
func (n *Node) InsertAfter(at, c *Node) {
	i := 0
	for j, k := range n.K {
		if k == at {
			i = j + 1
		}
	}
	n.K = append(n.K[:i:i], append([]*Node{c}, n.K[i:]...)...)
}
