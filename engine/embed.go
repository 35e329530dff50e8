package main

import (
	"crypto/sha256"
	"go/ast"
	"go/token"
	"io/fs"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"sync"

	"golang.org/x/tools/go/ssa"
)

type embedded struct{ name, data string }

var (
	embedMu    sync.Mutex
	embedCache = map[*ssa.Package]map[string][]embedded{}
)

// embeds lists, for each variable of the package with a go:embed directive, the
// files that the compiler would embed, in the order of embed.FS.
func embeds(lp *loadedPkg, p *ssa.Package) map[string][]embedded {
	embedMu.Lock()
	defer embedMu.Unlock()
	if r, ok := embedCache[p]; ok {
		return r
	}
	out := map[string][]embedded{}
	for _, f := range lp.files {
		for _, d := range f.Decls {
			gd, ok := d.(*ast.GenDecl)
			if !ok || gd.Tok != token.VAR {
				continue
			}
			for _, s := range gd.Specs {
				vs := s.(*ast.ValueSpec)
				var pats []string
				for _, doc := range []*ast.CommentGroup{gd.Doc, vs.Doc} {
					if doc == nil {
						continue
					}
					for _, c := range doc.List {
						if strings.HasPrefix(c.Text, "//go:embed ") {
							for _, w := range strings.Fields(strings.TrimPrefix(c.Text, "//go:embed ")) {
								if u, err := strconv.Unquote(w); err == nil {
									w = u
								}
								pats = append(pats, w)
							}
						}
					}
				}
				if len(pats) > 0 && len(vs.Names) == 1 {
					out[vs.Names[0].Name] = embedFiles(lp.lp.Dir, pats)
				}
			}
		}
	}
	embedCache[p] = out
	return out
}

func embedFiles(dir string, pats []string) []embedded {
	files := map[string]string{}
	add := func(rel string) {
		b, err := os.ReadFile(filepath.Join(dir, rel))
		if err != nil {
			panic(unsupported("embed: %v", err))
		}
		files[rel] = string(b)
		for d := filepath.Dir(rel); d != "."; d = filepath.Dir(d) {
			files[d+"/"] = ""
		}
	}
	for _, pat := range pats {
		all := strings.HasPrefix(pat, "all:")
		found, _ := filepath.Glob(filepath.Join(dir, strings.TrimPrefix(pat, "all:")))
		for _, f := range found {
			rel, _ := filepath.Rel(dir, f)
			if fi, err := os.Stat(f); err == nil && !fi.IsDir() {
				add(rel)
				continue
			}
			filepath.WalkDir(f, func(p string, d fs.DirEntry, err error) error {
				if err != nil {
					return err
				}
				hidden := p != f && !all && (d.Name()[0] == '.' || d.Name()[0] == '_')
				if d.IsDir() {
					if hidden {
						return filepath.SkipDir
					}
					return nil
				}
				if !hidden {
					r, _ := filepath.Rel(dir, p)
					add(r)
				}
				return nil
			})
		}
	}
	var out []embedded
	for n, d := range files {
		out = append(out, embedded{n, d})
	}
	split := func(n string) (string, string) {
		n = strings.TrimSuffix(n, "/")
		return filepath.Dir(n), filepath.Base(n)
	}
	sort.Slice(out, func(i, j int) bool {
		di, bi := split(out[i].name)
		dj, bj := split(out[j].name)
		return di < dj || di == dj && bi < bj
	})
	return out
}

// embedInit sets the variables with go:embed directives.
func (m *Machine) embedInit(lp *loadedPkg, p *ssa.Package) {
	for name, files := range embeds(lp, p) {
		g, ok := p.Members[name].(*ssa.Global)
		if !ok {
			continue
		}
		switch (*m.globals[g]).(type) {
		case structure: // embed.FS
			var list slice
			for _, f := range files {
				sum := sha256.Sum256([]byte(f.data))
				hash := make(array, 16)
				for i := range hash {
					hash[i] = cBV(8, uint64(sum[i]))
				}
				list = append(list, structure{f.name, f.data, hash})
			}
			ptr := new(value)
			*ptr = list
			*m.globals[g] = structure{ptr}
		case string:
			for _, f := range files {
				if !strings.HasSuffix(f.name, "/") {
					*m.globals[g] = f.data
				}
			}
		default:
			panic(unsupported("go:embed into %s", g.String()))
		}
	}
}
