package main

import "strconv"

// path tells where something is in a tree.
type path struct {
	up   *path
	name string
	i    int
	len  int
}

func root(name string) *path { return &path{name: name} }

func (p *path) dot(name string) *path { return &path{p, "." + name, 0, p.len + 1} }

func (p *path) at(i int) *path { return &path{p, "", i, p.len + 1} }

func (p *path) String() string {
	s := ""
	for n := 0; p != nil; p = p.up {
		if n++; n > 60 {
			return "... " + s
		}
		if p.name == "" {
			s = "[" + strconv.Itoa(p.i) + "]" + s
		} else {
			s = p.name + s
		}
	}
	return s
}
