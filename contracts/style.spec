// The style cascade: what an element's style is, given the inherited style,
// the style sheet, the classes and the inline declarations.
package style

// a declaration is a function on styles; applyDecl is what it does
ufun applyDecl(style.MutateFnc, style.Styles) style.Styles

functype style.MutateFnc(f, styles) {
	modifies styles
	ensures *styles == applyDecl(f, old(*styles))
}

fold declared(fs seq[style.MutateFnc], sty style.Styles) style.Styles { [] => sty | a, f => applyDecl(f, a) }
fold inClasses(cl seq[string], cs style.Classes, sty style.Styles) style.Styles {
	[] => sty | a, n => if haskey(cs, n) then declared(cs[n].mutator.fncs, a) else a
}
define selected(c style.Class, sel string) = if haskey(c.Selectors, sel) then c.Selectors[sel].mutator else c.mutator
fold inSelected(cl seq[string], sel string, cs style.Classes, sty style.Styles) style.Styles {
	[] => sty | a, n => if haskey(cs, n) then declared(selected(cs[n], sel).fncs, a) else a
}
fold inline(ms seq[*style.Mutator], sty style.Styles) style.Styles { [] => sty | a, m => declared(m.fncs, a) }

func style.(*Mutator).Mutate(m, styles) {
	modifies styles
	props C08
	ensures declared: *styles == declared(m.fncs, old(*styles))
	inv *styles == declared(m.fncs[0:$k], old(*styles))
}
func style.Class.Mutate(c, styles) {
	modifies styles
	props C08
	ensures class: *styles == declared(c.mutator.fncs, old(*styles))
}
func style.Class.MutateWithSelector(c, sel, styles) {
	modifies styles
	props C08
	ensures selector: *styles == declared(selected(c, sel).fncs, old(*styles))
}
func style.Classes.Mutate(cs, styles, useClasses) {
	modifies styles
	props C08
	ensures classes: *styles == inClasses(useClasses, cs, old(*styles))
	inv *styles == inClasses(useClasses[0:$k], cs, old(*styles))
}
func style.Classes.MutateWithSelector(cs, sel, styles, useClasses) {
	modifies styles
	props C08
	ensures selected: *styles == inSelected(useClasses, sel, cs, old(*styles))
	inv *styles == inSelected(useClasses[0:$k], sel, cs, old(*styles))
}
