package h

// Shrink lists simpler variants of a scenario, the biggest simplifications first.
func Shrink(s *Scenario) []*Scenario {
	var out []*Scenario
	add := func(f func(c *Scenario) bool) {
		c := s.Clone()
		c.Sched.Decisions = nil
		if f(c) {
			out = append(out, c)
		}
	}
	addKeep := func(f func(c *Scenario) bool) { // keeps the listed decisions
		c := s.Clone()
		if f(c) {
			out = append(out, c)
		}
	}
	if s.Sched.Policy != 2 {
		add(func(c *Scenario) bool {
			c.Sched = Sched{Policy: 2}
			return true
		})
		for _, f := range []func(*Sched) *uint32{
			func(x *Sched) *uint32 { return &x.SlowPPM },
			func(x *Sched) *uint32 { return &x.YieldPPM },
			func(x *Sched) *uint32 { return &x.MapPPM },
		} {
			f := f
			if *f(&s.Sched) != 0 {
				add(func(c *Scenario) bool { *f(&c.Sched) = 0; return true })
			}
		}
	}
	// runs
	if len(s.Runs) > 2 {
		for i := range s.Runs {
			i := i
			add(func(c *Scenario) bool { c.Runs = c.Runs[i : i+1]; return true })
		}
	}
	if len(s.Runs) > 1 {
		for i := range s.Runs {
			i := i
			add(func(c *Scenario) bool { c.Runs = append(c.Runs[:i:i], c.Runs[i+1:]...); return true })
		}
	}
	for i := range s.Interc {
		i := i
		add(func(c *Scenario) bool { c.Interc = append(c.Interc[:i:i], c.Interc[i+1:]...); return true })
	}
	// flows that nothing starts
	for i := range s.Flows {
		i := i
		used := false
		for _, r := range s.Runs {
			used = used || r.Flow == i
		}
		s.tasks(func(_ *Flow, _ *Graph, t *Task) {
			used = used || (t.Kind == "sub" || t.Kind == "det") && t.Flow == i
		})
		for _, x := range s.Interc {
			used = used || x.Flow == i
		}
		if used || s.Extra != nil {
			continue
		}
		add(func(c *Scenario) bool {
			c.Flows = append(c.Flows[:i:i], c.Flows[i+1:]...)
			for _, r := range c.Runs {
				if r.Flow > i {
					r.Flow--
				}
			}
			for _, x := range c.Interc {
				if x.Flow > i {
					x.Flow--
				}
			}
			c.tasks(func(_ *Flow, _ *Graph, t *Task) {
				if t.Flow > i {
					t.Flow--
				}
			})
			return true
		})
	}
	for fi, f := range s.Flows {
		fi := fi
		if f.EH != nil {
			add(func(c *Scenario) bool { c.Flows[fi].EH = nil; return true })
		}
		for _, eh := range []bool{false, true} {
			eh := eh
			g := f.Body
			if eh {
				g = f.EH
			}
			if g == nil {
				continue
			}
			gr := func(c *Scenario) *Graph {
				if eh {
					return c.Flows[fi].EH
				}
				return c.Flows[fi].Body
			}
			n := len(g.Tasks)
			for sz := n / 2; sz >= 1; sz /= 2 {
				for at := 0; at < n; at += sz {
					at, sz := at, sz
					add(func(c *Scenario) bool {
						k := gr(c)
						end := at + sz
						if end > len(k.Tasks) {
							end = len(k.Tasks)
						}
						gone := map[string]bool{}
						for _, t := range k.Tasks[at:end] {
							gone[t.ID] = true
						}
						k.Tasks = append(k.Tasks[:at:at], k.Tasks[end:]...)
						var ls []*Link
						for _, l := range k.Links {
							if !gone[l.From] && !gone[l.To] {
								ls = append(ls, l)
							}
						}
						k.Links = ls
						c.tasks(func(_ *Flow, _ *Graph, t *Task) {
							var rs []*Ref
							for _, r := range t.Refs {
								if !gone[r.T] {
									rs = append(rs, r)
								}
							}
							t.Refs = rs
							if t.In0 != nil && gone[t.In0.T] {
								t.In0 = nil
							}
						})
						var xs []*IntSpec
						for _, x := range c.Interc {
							if !gone[x.Task] {
								xs = append(xs, x)
							}
						}
						c.Interc = xs
						return true
					})
				}
			}
			for li := range g.Links {
				li := li
				add(func(c *Scenario) bool {
					k := gr(c)
					k.Links = append(k.Links[:li:li], k.Links[li+1:]...)
					return true
				})
				if g.Links[li].Type != "dependency" && g.Links[li].Type != "error" {
					add(func(c *Scenario) bool {
						l := gr(c).Links[li]
						l.Type, l.Expr, l.Sels = "dependency", "", nil
						return true
					})
				}
			}
			for ti, t := range g.Tasks {
				ti := ti
				tk := func(c *Scenario) *Task { return gr(c).Tasks[ti] }
				if t.Loop != nil {
					add(func(c *Scenario) bool { tk(c).Loop = nil; return true })
					if t.Loop.N > 1 {
						add(func(c *Scenario) bool { tk(c).Loop.N--; return true })
					}
					if t.Loop.Delay > 0 {
						add(func(c *Scenario) bool { tk(c).Loop.Delay = 0; return true })
					}
					if t.Loop.Vary {
						add(func(c *Scenario) bool { tk(c).Loop.Vary = false; return true })
					}
					if t.Loop.Typ != "" {
						add(func(c *Scenario) bool { tk(c).Loop.Typ = ""; return true })
					}
					if t.Loop.Acc {
						add(func(c *Scenario) bool { tk(c).Loop.Acc = false; return true })
					}
				}
				if t.Retry != nil {
					add(func(c *Scenario) bool { tk(c).Retry = nil; return true })
					if t.Retry.Vary {
						add(func(c *Scenario) bool { tk(c).Retry.Vary = false; return true })
					}
					if t.Retry.Bad != "" {
						add(func(c *Scenario) bool { tk(c).Retry.Bad = ""; return true })
					}
					if t.Retry.Interval > 0 {
						add(func(c *Scenario) bool { tk(c).Retry.Interval = 0; return true })
					}
				}
				for i := range t.Sch {
					i := i
					add(func(c *Scenario) bool {
						s := tk(c).Sch
						tk(c).Sch = append(append([]*Schema{}, s[:i]...), s[i+1:]...)
						return true
					})
				}
				if t.Post {
					add(func(c *Scenario) bool { tk(c).Post = false; return true })
				}
				if t.Set != "" {
					add(func(c *Scenario) bool { tk(c).Set = ""; return true })
				}
				if t.In0 != nil {
					add(func(c *Scenario) bool { tk(c).In0 = nil; return true })
				}
				for ri := range t.Refs {
					ri := ri
					add(func(c *Scenario) bool {
						x := tk(c)
						x.Refs = append(x.Refs[:ri:ri], x.Refs[ri+1:]...)
						return true
					})
				}
				if t.Kind == "sub" || t.Kind == "det" {
					add(func(c *Scenario) bool {
						x := tk(c)
						x.Kind, x.Flow, x.In0 = "work", 0, nil
						x.Variants = [][]Outcome{{{}}}
						return true
					})
				}
				if len(t.Variants) > 1 {
					add(func(c *Scenario) bool { tk(c).Variants = tk(c).Variants[:1]; return true })
				}
				for vi, v := range t.Variants {
					for oi, o := range v {
						vi, oi := vi, oi
						if o.Kind != "" {
							add(func(c *Scenario) bool { tk(c).Variants[vi][oi].Kind = ""; return true })
						}
						if o.Lat != 0 {
							add(func(c *Scenario) bool { tk(c).Variants[vi][oi].Lat = 0; return true })
						}
						if o.Sel != 0 {
							add(func(c *Scenario) bool { tk(c).Variants[vi][oi].Sel = 0; return true })
						}
					}
				}
			}
		}
		if len(f.Outs) > 0 {
			add(func(c *Scenario) bool { c.Flows[fi].Outs = nil; return true })
		}
	}
	for i, r := range s.Runs {
		i := i
		if r.At > 0 {
			add(func(c *Scenario) bool { c.Runs[i].At = 0; return true })
		}
		if r.Event != "" {
			add(func(c *Scenario) bool { c.Runs[i].Event = ""; return true })
		}
		if r.Orig != "" {
			add(func(c *Scenario) bool { c.Runs[i].Orig, c.Runs[i].Rerun = "", false; return true })
		}
		if r.Detach {
			add(func(c *Scenario) bool { c.Runs[i].Detach = false; return true })
		}
	}
	// observers
	o := s.Obs
	if o.RecFail > 0 {
		add(func(c *Scenario) bool { c.Obs.RecFail = 0; return true })
	}
	if o.RecLat > 0 {
		add(func(c *Scenario) bool { c.Obs.RecLat = 0; return true })
	}
	if o.LisLat > 0 {
		add(func(c *Scenario) bool { c.Obs.LisLat = 0; return true })
	}
	if o.LisPanic > 0 {
		add(func(c *Scenario) bool { c.Obs.LisPanic = 0; return true })
	}
	if o.Listeners {
		add(func(c *Scenario) bool { c.Obs.Listeners = false; return true })
	}
	if s.Cover {
		add(func(c *Scenario) bool { c.Cover = false; return true })
	}
	// schedule decisions
	if n := len(s.Sched.Decisions); n > 0 {
		for sz := n; sz >= 1; sz /= 2 {
			cnt := 0
			for at := 0; at < n && cnt < 64; at += sz {
				at, sz := at, sz
				cnt++
				addKeep(func(c *Scenario) bool {
					end := at + sz
					if end > n {
						end = n
					}
					c.Sched.Decisions = append(append([]Decision{}, c.Sched.Decisions[:at]...), c.Sched.Decisions[end:]...)
					return true
				})
			}
		}
	}
	if c := Checks[s.Check]; c != nil && c.Shrink != nil {
		out = append(out, c.Shrink(s)...)
	}
	return out
}

func (s *Scenario) tasks(f func(*Flow, *Graph, *Task)) {
	for _, fl := range s.Flows {
		for _, g := range []*Graph{fl.Body, fl.EH} {
			if g == nil {
				continue
			}
			for _, t := range g.Tasks {
				f(fl, g, t)
			}
		}
	}
}
