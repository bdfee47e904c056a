// Font definition files.
package font

// what the definition file says; the library fills it in
ghost T.fonts seq[font.Definition]
ghost T.mono string
ufun absOf(string) string
ufun dirOf(string) string
extern toml.DecodeFile(file, v) returns (meta, err) {
	modifies font.Definitions.MonoFont, font.Definitions.Fonts
	ensures astype(v, "*font.Definitions").Fonts == T.fonts && astype(v, "*font.Definitions").MonoFont == T.mono
}
extern filepath.Abs(file) returns (r, err) { ensures r == absOf(file) }
extern filepath.Dir(file) returns (r) { ensures r == dirOf(file) }

define placed(dir string, name string) = if pathAbs(name) then name else pathJoin(dir, name)
fold stylesOf(ss seq[font.StyleDefinition], name string, dir string, a0 seq[font.Descriptor]) seq[font.Descriptor] {
	[] => a0 | a, s => push(a, mkstruct("font.Descriptor", name, s.Style, placed(dir, s.FilePath))) }
fold fontsOf(ds seq[font.Definition], dir string) seq[font.Descriptor] {
	[] => [] | a, d => stylesOf(d.StyleDefinitions, d.Name, dir, a) }

func font.NewRegistry() returns (r) {
	props C27
	modifies nothing
	ensures fresh(r) && r.fonts == [] && r.monoFont == ""
}
func font.(*Registry).Register(d, fd) {
	props C27
	modifies d
	ensures d.fonts == push(old(d.fonts), fd) && d.monoFont == old(d.monoFont)
}
func font.LoadRegistryFromFile(file) returns (reg, err) {
	props C27
	ensures fonts: isnil(err) ==> reg.fonts == fontsOf(T.fonts, dirOf(absOf(file)))
	ensures mono: isnil(err) ==> reg.monoFont == T.mono
	inv (?r *font.Registry): ?r.fonts == fontsOf(T.fonts[0:$k], dirOf(absOf(file)))
	inv (?r *font.Registry): ?r.monoFont == T.mono
	inv (?r *font.Registry): ?r.fonts == stylesOf(T.fonts[$k0].StyleDefinitions[0:$k], T.fonts[$k0].Name, dirOf(absOf(file)), fontsOf(T.fonts[0:$k0], dirOf(absOf(file))))
}
